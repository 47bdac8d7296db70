"""Behaviour-preserving rewrites that compute the same things differently:
another order, another formula, other helpers.  Results may differ in their
last bits where the properties allow that."""
import re
V = "vmmlib/vector.hpp"; M = "vmmlib/matrix.hpp"; Q = "vmmlib/quaternion.hpp"
F = "vmmlib/frustum.hpp"; C = "vmmlib/frustum_culler.hpp"; A = "vmmlib/aabb.hpp"
I = "vmmlib/intersection.hpp"; L = "vmmlib/lowpass_filter.hpp"
R = "vmmlib/qr_decomposition.hpp"; H = "vmmlib/math.hpp"
EDITS = []
def body(f, start, new):
    """replaces the body of the function whose text from `start` is unique"""
    s = open("/repo/" + f).read()
    assert s.count(start) == 1, (f, start, s.count(start))
    i = s.index(start)
    b = s.index("\n{", i) + 1
    e = s.index("\n}", b) + 2
    EDITS.append((f, s[i:e], s[i:b] + "{\n" + new.strip("\n") + "\n}"))
def sub(f, old, new):
    EDITS.append((f, old, new))

body(V, "inline T Vector< M, T >::dot( const", """
    T sum = at( M - 1 ) * other.at( M - 1 );
    for( size_t left = M - 1; left > 0; --left )
        sum = at( left - 1 ) * other.at( left - 1 ) + sum;
    return sum;
""")
body(V, "inline T Vector< M, T >::normalize()", """
    const T former = std::sqrt( squared_length( ));
    if( former != 0 )
        for( iterator i = begin(); i != end(); ++i )
            *i = *i / former;
    return former;
""")
body(V, "inline T Vector< M, T >::squared_length() const", """
    return dot( *this );
""")
body(V, "inline T Vector< M, T >::squared_distance( const", """
    T sum = 0;
    for( size_t i = M; i-- > 0; )
    {
        const T d = static_cast< T >( other.at( i ) - at( i ));
        sum += d * d;
    }
    return sum;
""")
body(V, "inline T Vector< M, T >::product() const", """
    T result = 1;
    for( const_iterator i = begin(); i != end(); ++i )
        result = static_cast< T >( *i * result );
    return result;
""")
body(V, "void Vector< M, T >::compute_normal( const Vector< M, T >& aa,", """
    // the edges from the second corner give the same normal
    *this = ( cc - bb ).cross( aa - bb );
    normalize();
""")
body(V, "Vector< 3, T > Vector< M, T >::rotate( const T theta,", """
    // Rodrigues' formula
    const Vector< 3, T > k( vmml::normalize( Vector< 3, T >( axis )));
    const T c = std::cos( theta );
    return ( *this ) * c + k.cross( *this ) * T( std::sin( theta )) + k * ( k.dot( *this ) * ( 1 - c ));
""")
sub(V, "    plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();",
       "    plane.w() = -normal.dot( b );")
sub(V, "    return normal.dot( point ) + w();", """    const Vector< 3, T > p( point );
    return w() + p.z() * normal.z() + p.y() * normal.y() + p.x() * normal.x();""")
sub(V, "    return point - ( normal * distance_to_plane( point ) );", """    const T d = -distance_to_plane( point );
    return Vector< 3, T >( point.x() + d * normal.x(), point.y() + d * normal.y(), point.z() + d * normal.z( ));""")
sub(V, "    return ( point - center_ ).length() - w();", "    return center_.distance( Vector< 3, T >( point )) - w();")
sub(V, "    projected_point.normalize();\n    projected_point *= w();", "    projected_point *= w() / projected_point.length();")
body(V, "Vector< M, T >::norm( ) const", """
    long double sum = 0;
    for( size_t i = M; i > 0; --i )
        sum += static_cast< long double >( at( i - 1 )) * at( i - 1 );
    return static_cast< double >( std::sqrt( sum ));
""")
body(V, "Vector< M, T >::reciprocal_safe()", """
    const T one = 1;
    for( size_t i = 0; i < M; ++i )
        array[ i ] = array[ i ] ? one / array[ i ] : std::numeric_limits< T >::max();
""")

sub(M, "            T& component = at( row_index, col_index );\n", "            T component = 0;\n")
sub(M, "            component = static_cast< T >( 0.0 );\n            for( size_t p = 0; p < P; p++)\n", "            for( size_t p = P; p-- > 0; )\n")
sub(M, """                component += left.at( row_index, p ) * right.at( p, col_index );
            }""", """                component += right.at( p, col_index ) * left.at( row_index, p );
            }
            at( row_index, col_index ) = component;""")
sub(M, """        T tmp( 0 );
        for( size_t j = 0; j < N; ++j )
            tmp += at( i, j ) * vec.at( j );
        result.at( i ) = tmp;""", """        result.at( i ) = get_row( i ).dot( vec );""")
body(M, "inline T\ncompute_determinant( const Matrix< 3, 3, T >& m_ )" if "inline T\ncompute_determinant( const Matrix< 3, 3, T >& m_ )" in open("/repo/" + M).read() else "inline T compute_determinant( const Matrix< 3, 3, T >& m_ )", """
    // along the last column
    return m_( 0, 2 ) * ( m_( 1, 0 ) * m_( 2, 1 ) - m_( 1, 1 ) * m_( 2, 0 ))
         - m_( 1, 2 ) * ( m_( 0, 0 ) * m_( 2, 1 ) - m_( 0, 1 ) * m_( 2, 0 ))
         + m_( 2, 2 ) * ( m_( 0, 0 ) * m_( 1, 1 ) - m_( 0, 1 ) * m_( 1, 0 ));
""")
body(M, "inline T compute_determinant( const Matrix< 4, 4, T >& m )", """
    // products of complementary 2x2 minors of the upper and lower rows
    const T a01 = m( 0, 0 ) * m( 1, 1 ) - m( 0, 1 ) * m( 1, 0 ), b01 = m( 2, 0 ) * m( 3, 1 ) - m( 2, 1 ) * m( 3, 0 );
    const T a02 = m( 0, 0 ) * m( 1, 2 ) - m( 0, 2 ) * m( 1, 0 ), b02 = m( 2, 0 ) * m( 3, 2 ) - m( 2, 2 ) * m( 3, 0 );
    const T a03 = m( 0, 0 ) * m( 1, 3 ) - m( 0, 3 ) * m( 1, 0 ), b03 = m( 2, 0 ) * m( 3, 3 ) - m( 2, 3 ) * m( 3, 0 );
    const T a12 = m( 0, 1 ) * m( 1, 2 ) - m( 0, 2 ) * m( 1, 1 ), b12 = m( 2, 1 ) * m( 3, 2 ) - m( 2, 2 ) * m( 3, 1 );
    const T a13 = m( 0, 1 ) * m( 1, 3 ) - m( 0, 3 ) * m( 1, 1 ), b13 = m( 2, 1 ) * m( 3, 3 ) - m( 2, 3 ) * m( 3, 1 );
    const T a23 = m( 0, 2 ) * m( 1, 3 ) - m( 0, 3 ) * m( 1, 2 ), b23 = m( 2, 2 ) * m( 3, 3 ) - m( 2, 3 ) * m( 3, 2 );
    return a01 * b23 - a02 * b13 + a03 * b12 + a12 * b03 - a13 * b02 + a23 * b01;
""")
sub(M, """   /* division: 16 multiplications, 1 division */
   const T detinv = static_cast< T >( 1.0 ) / determinant;

   for( size_t i = 0; i != 16; ++i )
       inv_.array[i] *= detinv;""", """   inv_ /= determinant;""")
body(M, "double\nMatrix< M, N, T >::frobenius_norm( ) const", """
    double sum = 0;
    for( size_t col = N; col-- > 0; )
        for( size_t row = 0; row < M; ++row )
        {
            const double value = static_cast< double >( at( row, col ));
            sum += value * value;
        }
    return std::sqrt( sum );
""")
body(M, "double\nMatrix< M, N, T >::sum_elements( ) const", """
    double total = 0;
    for( size_t row = 0; row < M; ++row )
        for( size_t col = 0; col < N; ++col )
            total += at( row, col );
    return total;
""")
sub(M, """            fill_value = (2 * col + 1) * row * M_PI / (2*M);
            fill_value = std::cos( fill_value );
            fill_value *= weight;""", """            fill_value = weight * std::cos( M_PI / num_rows * ( col + 0.5 ) * row );""")
sub(M, "    const T _zero = 0.0;\n", "")
EDITS.pop()
sub(M, "    array[0]  = cosine + ( one - cosine ) * std::pow( axis.array[0], two );",
       "    array[0]  = one - ( one - cosine ) * ( axis.array[1] * axis.array[1] + axis.array[2] * axis.array[2] );")
sub(M, "    array[5]  = cosine + ( one - cosine ) * std::pow( axis.array[1], two );",
       "    array[5]  = cosine + axis.array[1] * axis.array[1] * ( one - cosine );")
sub(M, """                    sum += kernel.at(j,i) * at(srcy,srcx);
""", """                    sum = at(srcy,srcx) * kernel.at(j,i) + sum;
""")

# Hamilton's table instead of the optimised product
s = open("/repo/" + Q).read()
i = s.index("    T* _array = super::array;\n")
e = s.index("    #endif\n", i)
EDITS.append((Q, s[i:e], """    const T a = w(), b = x(), c = y(), d = z();
    const T e = q.w(), f = q.x(), g = q.y(), h = q.z();
    x() = a * f + b * e + c * h - d * g;
    y() = a * g - b * h + c * e + d * f;
    z() = a * h + b * g - c * f + d * e;
    w() = a * e - b * f - c * g - d * h;

"""))
sub(Q, "    return x() * x() + y() * y() + z() * z() + w() * w();", "    return dot( *this );")
sub(Q, """    Quaternion< T > q( *this );
    q.conjugate();

    T tmp = squared_abs();
    tmp = static_cast< T >( 1.0 ) / tmp;
    return q * tmp;""", """    return get_conjugate() / squared_abs();""")
sub(Q, """    M( 0, 0 ) = w2 + x2 - y2 - z2;""", """    M( 0, 0 ) = 1. - 2. * ( y2 + z2 );""")
sub(Q, """    M( 1, 1 ) = w2 - x2 + y2 - z2;""", """    M( 1, 1 ) = 1. - 2. * ( x2 + z2 );""")
sub(Q, """    M( 2, 2 ) = w2 - x2 - y2 + z2;""", """    M( 2, 2 ) = 1. - 2. * ( x2 + y2 );""")
s = open("/repo/" + Q).read()
EDITS.append((Q, "        x() = _w * a.x() + _y", "")) if False else None
sub(Q, """    a_ = 1.0 / a_;
    return Quaternion( x() * a_, y() * a_, z() * a_, w() * a_ );""", """    return Quaternion( x() / a_, y() / a_, z() / a_, w() / a_ );""")

sub(F, """	const T ratio = new_near / near_plane();
	right()     *= ratio;
	left()      *= ratio;
	top()       *= ratio;
	bottom()    *= ratio;
	near_plane()  = new_near;""", """	const T former = near_plane();
	for( size_t i = 0; i < 4; ++i )
		array[ i ] = array[ i ] * new_near / former;
	near_plane() = new_near;""")
sub(F, """    M( 0,0 ) = 2.0 * near_plane() / ( right() - left() );
    M( 0,1 ) = 0.0;""", """    const T width = right() - left();
    M( 0,0 ) = ( near_plane() + near_plane( )) / width;
    M( 0,1 ) = 0.0;""")
sub(F, """    M( 2,3 ) = -2.0 * far_plane() * near_plane() / ( far_plane() - near_plane() );""",
       """    M( 2,3 ) = ( 2.0 * near_plane( )) * ( far_plane() / ( near_plane() - far_plane( )));""")
sub(F, """    left()      = bottom() * aspect_ratio;
    right()     = top() * aspect_ratio;""", """    right()     = aspect_ratio * top();
    left()      = -right();""")

sub(C, """    const T len_i = 1.0 / v3.length();
    plane.x() *= len_i;
    plane.y() *= len_i;
    plane.z() *= len_i;
    plane.w() *= len_i;""", """    plane /= T( v3.length( ));""")
body(C, "Visibility FrustumCuller< T >::_test_aabb( const vec4& plane,", """
    // the corners farthest along and against the normal
    vec3 farthest( middle ), nearest( middle );
    for( size_t i = 0; i < 3; ++i )
    {
        const T e = plane.array[ i ] < 0 ? -extent.array[ i ] : extent.array[ i ];
        farthest.array[ i ] += e;
        nearest.array[ i ] -= e;
    }
    if( plane.distance_to_plane( nearest ) >= 0 )
        return VISIBILITY_FULL;
    return plane.distance_to_plane( farthest ) > 0 ? VISIBILITY_PARTIAL : VISIBILITY_NONE;
""")
sub(A, """    Vector< 3, T > sv( sphere.template get_sub_vector< 3 >( ));
    sv += sphere.w();
    if ( sv.x() > _max.x() || sv.y() > _max.y() || sv.z() > _max.z() )
        return false;
""", """    const Vector< 3, T > center( sphere.template get_sub_vector< 3 >( ));
    for( size_t i = 0; i < 3; ++i )
        if( center( i ) + sphere.w() > _max( i ) || center( i ) - sphere.w() < _min( i ))
            return false;
    return true;
    Vector< 3, T > sv( center );
""")
sub(I, """    const T sqCenterToProj = sqDistance - vecProjection * vecProjection;""",
       """    const T sqCenterToProj = ( centerVec - _direction * vecProjection ).squared_length();""")
sub(L, """        _value = _value * (1 - weight) + (*i) * weight;
        weight *= _smooth_factor;""", """        _value = ((*i) * weight) + _value * (1 - weight);
        weight = _smooth_factor * weight;""")
sub(R, """            Q.get_column( i, q_column );
            A.get_column( j, a_column );

            R( i, j ) = dot( q_column, a_column );
            v -= q_column * R(i,j);""", """            // modified Gram-Schmidt: against what is left of the column
            Q.get_column( i, q_column );
            R( i, j ) = v.dot( q_column );
            v -= q_column * R(i,j);""")
