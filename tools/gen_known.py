import json,subprocess
F=r'''
34f8276 C02 Vector::cross / free cross gave a wrong product when the destination aliased an operand
c5876e2 C03,C07 reverse iterators (rbegin/rend) of Vector and Matrix started one past the end
1fe3d03 C04 Vector::find_abs_max_index compared values, not magnitudes, against the start element
1011648 C04 Vector::equals accepted NaN and was asymmetric for unsigned element types
d2cadb5 C08 Matrix::equals was asymmetric for unsigned element types
fb0f35a C06,C19 compute_plane returned a normal that is not of unit length
dffa8ba C14 operator<< left the stream's format flags changed
92f0c0c C08 Matrix::negate did not compile / did not negate
559037d C11,C13 get_max of an all-negative matrix returned a value that is not an element
fb72516 C08 Matrix *= self read elements it had already overwritten
124dc6f C24 Matrix::operator[](M) was accepted
297f583 C07 column-major set(begin,end) read past the end of a short range
66df2c7 C10 convolve with a non-square kernel read outside the kernel
3a30db4 C09 2x2 inverse accepted a zero determinant (tolerance <)
4153a3b C11 p_norm used signed values
f4da86c C14 read_from_raw of a short file reported success with undefined contents
75245ca C11 is_positive_definite did not compile for 1x1 and 2x2
608bfb6 C10 Matrix::tensor accessed out of bounds for non-square shapes
3b2fc1c C16 quaternion from rotation matrix had the wrong sign of w
dfcc75e C15 quaternion +=, -=, * with Vector3 did not compile or were wrong
7c69c2d C15 Quaternion::set(iter,iter) did not work
f84c1ba C15 Quaternion::negate was declared but undefined
148a57b C16 Quaternion::rotate, rotate_x/y/z did not compile
a62023f C20 AABB::isEmpty ignored z
d60eb30 C20 AABB::setEmpty was wrong for integer boxes
78ab080 C20 AABB::getCenter multiplied integers by 0.5
b64170d C20 AABB construction from and containment of spheres did not compile
bf89bd1 C18 Frustum::set_perspective ignored the near plane
dc032f8 C03 homogeneous conversion of integer vectors used a truncated reciprocal
90246b9 C08 free multiply() was ambiguous (did not compile) for square matrices
ed37860 C16 quaternion from a float rotation matrix near a half turn was off by up to one percent
d2c99d5 C20 AABB<long double>() had a positive maximum instead of being empty
95496ae C20 AABB::isIn(sphere) was wrong for integer radii beyond 2^24
d63001e C27 vector.hpp and lowpass_filter.hpp did not compile when included on their own
9dd2dbc C29 pythag<long double> had double precision only for |a| <= |b|
1fa0d57 C29 squared<long long> was rounded to double beyond 2^53
e416b0b C29 inverted rows/columns with zero elements were not recognised (0 != -0)
da5072c C11 frobenius_norm (and Vector::norm, C02) of integer matrices squared in the element type: (0 .. 2147483647) gave 1
d974931 C11 threshold given an element of the matrix itself: threshold(m(0,0)) of [3 2; 1 7] left 1 and 2
21631f6 C11 get_abs_min, get_abs_max, nnz(threshold) and threshold rounded 64-bit integers to double: get_abs_max of (9007199254740993 ..) gave 9007199254740992
a75a4ce C02,C06 points and axes of an integer type (or of lower precision) lost the fractions of the plane, sphere and axis: Vector<4,double>(0,0,-7/3,0).distance_to_sphere(Vector<3,float>(0,0,0)) was only float-exact, projections of integer points were truncated, rotation about integer axes of length > 1 was wrong
d6fbe77 C11 get_min and get_abs_min of an all-infinite matrix were not elements of it
'''
out=[]
import os
known=set()
for l in F.strip().splitlines():
    h,p,d=l.split(' ',2)
    subprocess.check_call(['git','-C','/repo','cat-file','-e',h])
    for q in p.split(','): out.append("fixed: property=%s %s %s"%(q,h,d))
k=json.load(open('/verif/known-findings.json')); k['fixed']=out
json.dump(k,open('/verif/known-findings.json','w'),indent=1)
