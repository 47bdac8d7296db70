# Second batch: functions (or ways to write them) the first batch leaves alone.
V="vmmlib/vector.hpp"; M="vmmlib/matrix.hpp"; Q="vmmlib/quaternion.hpp"; F="vmmlib/frustum.hpp"; C="vmmlib/frustum_culler.hpp"
A="vmmlib/aabb.hpp"; I="vmmlib/intersection.hpp"; L="vmmlib/lowpass_filter.hpp"; R="vmmlib/qr_decomposition.hpp"; H="vmmlib/math.hpp"; U="vmmlib/util.hpp"; X="vmmlib/matrix_functors.hpp"
EDITS=[
# ---------------------------------------------------------------- vector
(V,"""    const Vector< 3, T > cb = b - c;
    const Vector< 3, T > ba = a - b;

    Vector< 3, T > normal = cb.cross( ba );
    normal.normalize();

    Vector< 4, T > plane( normal, T( 0 ));
    plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();
    return plane;""","""    Vector< 3, T > normal;
    normal.compute_normal( c, b, a );
    return Vector< 4, T >( normal, -normal.dot( a ));"""),
(V,"""    for( size_t index = 0; index < M; ++index )
        at( index ) -= other.at( index );""","""    iterator it = begin();
    for( const_iterator o = other.begin(), o_end = other.end(); o != o_end; ++o, ++it )
        *it = *it - *o;"""),
(V,"""    for( size_t index = 0; index < M; ++index )
        at( index ) *= other;""","""    for( iterator it = begin(); it != end(); ++it )
        *it *= other;"""),
(V,"""    for( size_t index = 0; index < M; ++index )
        at( index ) /= other;""","""    *this = *this / other;"""),
(V,"""    for( size_t index = 0; index < M; ++index )
        array[ index ] = -array[ index ];
    return *this;""","""    std::transform( begin(), end(), begin(), std::negate< T >( ));
    return *this;"""),
(V,"""#include <algorithm>""","""#include <algorithm>
#include <functional>
#include <numeric>"""),
(V,"""    // this may be aa or bb: do not write before everything has been read
    const T x_ = aa.y() * bb.z() - aa.z() * bb.y();
    const T y_ = aa.z() * bb.x() - aa.x() * bb.z();
    const T z_ = aa.x() * bb.y() - aa.y() * bb.x();
    array[ 0 ] = x_;
    array[ 1 ] = y_;
    array[ 2 ] = z_;""","""    T product[ 3 ];
    for( size_t i = 0; i < 3; ++i )
    {
        const size_t j = ( i + 1 ) % 3;
        const size_t k = ( i + 2 ) % 3;
        product[ i ] = aa.array[ j ] * bb.array[ k ] - aa.array[ k ] * bb.array[ j ];
    }
    std::copy( product, product + 3, array );"""),
(V,"""    return std::sqrt( squared_length() );
}

template< size_t M, typename T >
inline T Vector< M, T >::squared_length() const""","""    return static_cast< T >( std::sqrt( dot( *this )));
}

template< size_t M, typename T >
inline T Vector< M, T >::squared_length() const"""),
(V,"""    return std::sqrt( squared_distance( other ) );""","""    return ( *this - other ).length();"""),
(V,"""    axis.normalize();

    const T costheta = std::cos( theta );""","""    axis = vmml::normalize( axis );

    const T costheta = std::cos( theta );"""),
(V,"""    return ( point - center_ ).length() - w();""","""    const T distance_ = center_.distance( point );
    return distance_ - w();"""),
(V,"""    return point - ( normal * distance_to_plane( point ) );""","""    const T distance_ = distance_to_plane( point );
    return Vector< 3, T >( point.x() - normal.x() * distance_,
                           point.y() - normal.y() * distance_,
                           point.z() - normal.z() * distance_ );"""),
(V,"""        const T difference = lhs < rhs ? rhs - lhs : lhs - rhs;
        if( !( difference < tolerance ))
            return false;""","""        const bool close = lhs < rhs ? rhs - lhs < tolerance
                                     : lhs - rhs < tolerance;
        if( !close )
            return false;"""),
(V,"""    const T w_ = source_( M );
    iterator it = begin(), it_end = end();
    for( size_t index = 0; it != it_end; ++it, ++index )
        *it = source_( index ) / w_;
    return 0;""","""    const T last_ = source_.array[ M ];
    for( size_t index = M; index > 0; --index )
        array[ index - 1 ] = source_.array[ index - 1 ] / last_;
    return 0;"""),
(V,"""    if( this != &other )
        memcpy( array, other.array, M * sizeof( T ) );
    return *this;""","""    std::copy( other.begin(), other.end(), begin( ));
    return *this;"""),
(V,"""    return std::min_element( begin(), end() ) - begin();
}



template< size_t M, typename T >
size_t
Vector< M, T >::find_max_index() const""","""    size_t best = 0;
    for( size_t i = 1; i < M; ++i )
        if( at( i ) < at( best ))
            best = i;
    return best;
}



template< size_t M, typename T >
size_t
Vector< M, T >::find_max_index() const"""),
(V,"""    return std::max_element( begin(), end(), vmml::math::abs_less< T >() ) - begin();""",
"""    size_t best = 0;
    for( size_t i = 1; i < M; ++i )
        if( std::abs( at( best )) < std::abs( at( i )))
            best = i;
    return best;"""),
(V,"""        if ( v == static_cast< T >( 0 ) )
            v = std::numeric_limits< T >::max();
        else
            v = static_cast< T >( 1.0 ) / v;""","""        v = v != T( 0 ) ? T( 1 ) / v : std::numeric_limits< T >::max();"""),
(V,"""    for( iterator it = begin(), it_end = end(); it != it_end; ++it )
    {
        (*it) += ( rand() & 1u ) ? perturbation : -perturbation;
    }
""","""    for( size_t i = 0; i < M; ++i )
    {
        const bool odd = rand() % 2 == 1;
        if( odd )
            at( i ) += perturbation;
        else
            at( i ) -= perturbation;
    }
"""),
(V,"""    size_t counter = 0;

    const_iterator  it = begin(),
    it_end = end();
    for( ; it != it_end; ++it)
    {
        if ( *it != 0 ) {
            ++counter;
        }
    }

    return counter;""","""    return M - std::count( begin(), end(), T( 0 ));"""),
(V,"""    double norm_v = 0.0;

    const_iterator it = begin(), it_end = end();
    for( ; it != it_end; ++it )
    {
        norm_v += static_cast< double >( *it ) * *it;
    }

    return std::sqrt(norm_v);""","""    double squares = 0.0;
    for( size_t i = 0; i < M; ++i )
    {
        const double value_ = at( i );
        squares += value_ * value_;
    }
    return std::sqrt( squares );"""),
(V,"""        const double fillValue = double( rand( )) / double( RAND_MAX );
        at( i ) = -1.0 + 2.0 * fillValue;""","""        at( i ) = 2.0 * ( double( rand( )) / RAND_MAX ) - 1.0;"""),
(V,"""    typename Vector< M-1, T >::const_iterator
        it = vector_.begin(), it_end = vector_.end();

    iterator my_it = begin();

    for( ; it != it_end; ++it, ++my_it )
    {
        (*my_it) = *it;
    }
    (*my_it) = last_;""","""    *std::copy( vector_.begin(), vector_.end(), begin( )) = last_;"""),
(V,"""    memcpy( array, v.array, sizeof( T ) * (M-1) );
    at( M-1 ) = _a;""","""    for( size_t i = 0; i + 1 < M; ++i )
        array[ i ] = v.array[ i ];
    array[ M-1 ] = _a;"""),
(V,"""    size_t minimum = M;
    if (N < M) minimum = N;
    memcpy( array, v.array, sizeof( T ) * minimum );""","""    std::copy( v.array, v.array + std::min( M, N ), array );"""),
# ---------------------------------------------------------------- matrix
(M,"""    // Invert a 3x3 using cofactors.  This is about 8 times faster than""","""    const T determinant = compute_determinant( m_ );
    if( !( fabs( determinant ) > tolerance_ ))
        return false; // matrix is not invertible

    // Invert a 3x3 using cofactors.  This is about 8 times faster than"""),
(M,"""    const T determinant =
          m_.at( 0, 0 ) * inverse_.at( 0, 0 )
        + m_.at( 0, 1 ) * inverse_.at( 1, 0 )
        + m_.at( 0, 2 ) * inverse_.at( 2, 0 );

    if ( fabs( determinant ) <= tolerance_ )
        return false; // matrix is not invertible

    const T detinv = static_cast< T >( 1.0 ) / determinant;

    inverse_.at( 0, 0 ) *= detinv;
    inverse_.at( 0, 1 ) *= detinv;
    inverse_.at( 0, 2 ) *= detinv;
    inverse_.at( 1, 0 ) *= detinv;
    inverse_.at( 1, 1 ) *= detinv;
    inverse_.at( 1, 2 ) *= detinv;
    inverse_.at( 2, 0 ) *= detinv;
    inverse_.at( 2, 1 ) *= detinv;
    inverse_.at( 2, 2 ) *= detinv;
""","""    inverse_ /= determinant;
"""),
(M,"""    m_.get_adjugate( inverse_ ); // set inverse_ to the adjugate of M
    inverse_ *= detinv;
    return true;""","""    inverse_( 0, 0 ) =  m_( 1, 1 ) * detinv;
    inverse_( 0, 1 ) = -m_( 0, 1 ) * detinv;
    inverse_( 1, 0 ) = -m_( 1, 0 ) * detinv;
    inverse_( 1, 1 ) =  m_( 0, 0 ) * detinv;
    return true;"""),
(M,"""    bool is_ok = true;
    for( size_t i = 0; is_ok && i < M * N; ++i )
    {
        is_ok = array[ i ] == other.array[ i ];
    }
    return is_ok;""","""    return std::equal( begin(), end(), other.begin( ));"""),
(M,"""    memcpy( array, source_.array, M * N * sizeof( T ));
    return *this;""","""    std::copy( source_.begin(), source_.end(), begin( ));
    return *this;"""),
(M,"""    for( size_t row_index = 0; row_index < M; row_index++)
    {
        for( size_t col_index = 0; col_index < N; col_index++)
        {
            T& component = at( row_index, col_index );
            component = static_cast< T >( 0.0 );
            for( size_t p = 0; p < P; p++)
            {
                component += left.at( row_index, p ) * right.at( p, col_index );
            }
        }
    }""","""    zero();
    for( size_t col_index = 0; col_index < N; col_index++)
        for( size_t p = 0; p < P; p++)
        {
            const T factor = right.at( p, col_index );
            for( size_t row_index = 0; row_index < M; row_index++)
                at( row_index, col_index ) += left.at( row_index, p ) * factor;
        }"""),
(M,"""            result.at( row_index, col_index ) = at( row_index, col_index ) / scalar;
        }
    }
    return result;""","""            T value_ = at( row_index, col_index );
            value_ /= scalar;
            result.at( row_index, col_index ) = value_;
        }
    }
    return result;"""),
(M,"""    for( size_t row_index = 0; row_index < M; ++row_index )
    {
        for( size_t col_index = 0; col_index < N; ++col_index )
        {
            at( row_index, col_index ) *= scalar;
        }
    }""","""    for( iterator it = begin(), it_end = end(); it != it_end; ++it )
        *it *= scalar;"""),
(M,"""    // this < M, 1 > = < M, P > * < P, 1 >
    for( size_t i = 0; i < M; ++i )
    {
        T tmp( 0 );
        for( size_t j = 0; j < N; ++j )
            tmp += at( i, j ) * vec.at( j );
        result.at( i ) = tmp;
    }
    return result;""","""    result = T( 0 );
    for( size_t j = 0; j < N; ++j )
        for( size_t i = 0; i < M; ++i )
            result.at( i ) += at( i, j ) * vec.at( j );
    return result;"""),
(M,"""    result *= static_cast< T >( -1 );
    return result;""","""    for( iterator it = result.begin(); it != result.end(); ++it )
        *it = -*it;
    return result;"""),
(M,"""            for ( size_t k = 0; k < N; ++k )
            {
                tmp += (at( row, k ) * at( col, k ));
            }

            cov_m_.at( row, col ) = tmp;
            cov_m_.at( col, row ) = tmp;
            tmp = 0;""","""            tmp = get_row( row ).dot( get_row( col ));
            cov_m_.at( row, col ) = cov_m_.at( col, row ) = tmp;"""),
(M,"""    memcpy( &column.array[0], &array[ M * index ], M * sizeof( T ) );""","""    for( size_t row = 0; row < M; ++row )
        column.array[ row ] = array[ M * index + row ];"""),
(M,"""            if ( ( row_index + col_index ) & _negate )
                cofactors( row_index, col_index ) = -get_minor( minor_, row_index, col_index );
            else
                cofactors( row_index, col_index ) = get_minor( minor_, row_index, col_index );""","""            const T sign_ = ( row_index & _negate ) == ( col_index & _negate ) ? 1 : -1;
            cofactors( row_index, col_index ) = sign_ * get_minor( minor_, row_index, col_index );"""),
(M,"""    get_cofactors( adjugate );
    adjugate = transpose( adjugate );
    return 0;""","""    Matrix< O, P, T > cofactors;
    get_cofactors( cofactors );
    cofactors.transpose_to( adjugate );
    return 0;"""),
(M,"""    tmp         = array[ 0 ] * cosine   - array[ 8 ] * sine;
    array[ 8 ]  = array[ 0 ] * sine     + array[ 8 ] * cosine;
    array[ 0 ]  = tmp;

    tmp         = array[ 1 ] * cosine   - array[ 9 ] * sine;
    array[ 9 ]  = array[ 1 ] * sine     + array[ 9 ] * cosine;
    array[ 1 ]  = tmp;

    tmp         = array[ 2 ] * cosine   - array[ 10 ] * sine;
    array[ 10 ] = array[ 2 ] * sine     + array[ 10 ] * cosine;
    array[ 2 ]  = tmp;

    tmp         = array[ 3 ] * cosine   - array[ 11 ] * sine;
    array[ 11 ] = array[ 3 ] * sine     + array[ 11 ] * cosine;
    array[ 3 ]  = tmp;
""","""    for( size_t row = 0; row < 4; ++row )
    {
        tmp              = array[ row ] * cosine - array[ row + 8 ] * sine;
        array[ row + 8 ] = array[ row + 8 ] * cosine + array[ row ] * sine;
        array[ row ]     = tmp;
    }
"""),
(M,"""    array[0]  *= scale0;
    array[1]  *= scale0;
    array[2]  *= scale0;
    array[3]  *= scale0;
    array[4]  *= scale1;
    array[5]  *= scale1;
    array[6]  *= scale1;
    array[7]  *= scale1;
    array[8]  *= scale2;
    array[9]  *= scale2;
    array[10] *= scale2;
    array[11] *= scale2;
""","""    const T factors[3] = { scale0, scale1, scale2 };
    for( size_t i = 0; i < 12; ++i )
        array[ i ] = array[ i ] * factors[ i / 4 ];
"""),
(M,"""        norm += std::pow( fabs( *it ), p );
    }

    return std::pow(norm,1./p);""","""        const double magnitude = std::abs( static_cast< double >( *it ));
        norm += std::pow( magnitude, p );
    }

    return std::pow( norm, 1 / p );"""),
(M,"""    for (size_t m = 0; m < M; ++m )
    {
        for ( size_t n = 0; n < N; ++n )
        {
            for (size_t o = 0; o < O; ++o )
            {
                for (size_t p = 0; p < P; ++p )
                {
                    result_.at(O*m + o, P*n + p) = at( m, n ) * right_.at( o, p );
                }
            }
        }
    }""","""    for( size_t row = 0; row < M*O; ++row )
        for( size_t col = 0; col < N*P; ++col )
            result_.at( row, col ) = at( row / O, col / P ) *
                                     right_.at( row % O, col % P );"""),
(M,"""    T min_value = *begin();

    const_iterator  it = begin(),
    it_end = end();
    for( ; it != it_end; ++it)
    {
        if ( *it < min_value ) {
            min_value = *it;
        }
    }
    return min_value;""","""    return *std::min_element( begin(), end( ));"""),
(M,"""    size_t counter = 0;

    const_iterator  it = begin(),
    it_end = end();
    for( ; it != it_end; ++it)
    {
        if ( *it != 0 ) {
            ++counter;
        }
    }

    return counter;""","""    return size() - std::count( begin(), end(), T( 0 ));"""),
(M,"""            at( row, col ) = -1.0 + 2.0 * static_cast< double >( fillValue )  ;""","""            at( row, col ) = fillValue + fillValue - 1.0;"""),
(M,"""    zero();
    for( size_t r = 0; r < R; ++r )
    {
        at(r, r) = static_cast< T >( diag_values_.at(r) );
    }
    return 0;""","""    for( size_t r = 0; r < R; ++r )
        for( size_t c = 0; c < R; ++c )
            at( r, c ) = r == c ? diag_values_.at( r ) : T( 0 );
    return 0;"""),
(M,"""    m = static_cast< T >( 0.0 );
    for( size_t index = 0; index < M; ++index )
        m( index, index ) = static_cast< T >( 1.0 );
    return 0; // for sfinae""","""    for( size_t col = 0; col < M; ++col )
        for( size_t row = 0; row < M; ++row )
            m( row, col ) = static_cast< T >( row == col );
    return 0; // for sfinae"""),
# ------------------------------------------------------------ quaternion
(Q,"""    const T tmp_00 = (d - c) * (_z - _w);
    const T tmp_01 = (a_ + b_) * (_x + _y);
    const T tmp_02 = (a_ - b_) * (_z + _w);
    const T tmp_03 = (c + d) * (_x - _y);
    const T tmp_04 = (d - b_) * (_y - _z);
    const T tmp_05 = (d + b_) * (_y + _z);
    const T tmp_06 = (a_ + c) * (_x - _w);
    const T tmp_07 = (a_ - c) * (_x + _w);
    const T tmp_08 = tmp_05 + tmp_06 + tmp_07;
    const T tmp_09 = 0.5 * (tmp_04 + tmp_08);

    _array[ 3 ] = tmp_00 + tmp_09 - tmp_05;
    _array[ 0 ] = tmp_01 + tmp_09 - tmp_08;
    _array[ 1 ] = tmp_02 + tmp_09 - tmp_07;
    _array[ 2 ] = tmp_03 + tmp_09 - tmp_06;
""","""    const T real = a_ * _x - b_ * _y - c * _z - d * _w;
    const T i_ = a_ * _y + b_ * _x + c * _w - d * _z;
    const T j_ = a_ * _z + c * _x + d * _y - b_ * _w;
    const T k_ = a_ * _w + d * _x + b_ * _z - c * _y;
    _array[ 0 ] = i_;
    _array[ 1 ] = j_;
    _array[ 2 ] = k_;
    _array[ 3 ] = real;
"""),
(Q,"""    a_ = 1.0 / a_;
    return Quaternion( x() * a_, y() * a_, z() * a_, w() * a_ );""","""    return Quaternion( x() / a_, y() / a_, z() / a_, w() / a_ );"""),
(Q,"""    q = 1.0f / q;
    this->operator*=( q );""","""    for( size_t i = 0; i < 4; ++i )
        array[ i ] /= q;"""),
(Q,"""    Quaternion< T > p = a;
    T alpha = theta / 2;
    Quaternion< T > q( std::sin( alpha ), 0, 0, std::cos( alpha ));
    return q * p * q.inverse();""","""    const T alpha = theta * T( 0.5 );
    const Quaternion< T > q( std::sin( alpha ), 0, 0, std::cos( alpha ));
    return q * ( Quaternion< T >( a ) * q.get_conjugate( ));"""),
(Q,"""    T trace = M( 0, 0 ) + M( 1, 1 ) + M( 2,2 ) + 1.0;
""","""    const T trace = 1.0 + ( M( 0, 0 ) + ( M( 1, 1 ) + M( 2,2 )));
"""),
(Q,"""        x() = M( 2, 1 ) - M( 1, 2 );
        x() *= s;

        y() = M( 0, 2 ) - M( 2, 0 );
        y() *= s;

        z() = M( 1, 0 ) - M( 0, 1 );
        z() *= s;

        w() = 0.25 / s;""","""        w() = 0.5 * sqrt( trace );
        x() = ( M( 2, 1 ) - M( 1, 2 )) * s;
        y() = ( M( 0, 2 ) - M( 2, 0 )) * s;
        z() = ( M( 1, 0 ) - M( 0, 1 )) * s;"""),
(Q,"""    T len = abs();
    if( len == 0.0 )
        return 0.0;
    len = 1.0f / len;
    this->operator*=( len );
    return len;""","""    const T length_ = abs();
    if( length_ == T( 0 ))
        return 0;
    for( size_t i = 0; i < 4; ++i )
        array[ i ] /= length_;
    return T( 1 ) / length_;"""),
(Q,"""    x() = _w * a.x() + _y * a.z() - _z * a.y();
    y() = _w * a.y() + _z * a.x() - _x * a.z();
    z() = _w * a.z() + _x * a.y() - _y * a.x();
    w() = -_x * a.x() - _y * a.y() - _z * a.z();""","""    const Quaternion< T > product( _w * a.x() + _y * a.z() - _z * a.y(),
                                   _w * a.y() + _z * a.x() - _x * a.z(),
                                   _w * a.z() + _x * a.y() - _y * a.x(),
                                   -( _x * a.x() + _y * a.y() + _z * a.z( )));
    *this = product;"""),
(Q,"""        T sine = sqrt( 1. - ( cosine * cosine ) );
        T angle = atan2( sine, cosine );
        T coeff1 = std::sin( ( 1.0 - a ) * angle) / sine;""","""        T angle = std::acos( cosine );
        T sine = std::sin( angle );
        T coeff1 = std::sin( angle - a * angle ) / sine;"""),
(Q,"""        px *= 1. - a;
        qx *= a;
        px += qx;
        px.normalize();""","""        px += ( qx - px ) * a;
        px.normalize();"""),
# --------------------------------------------------------------- frustum
(F,"""    left()   = left() + jitter_.x();
    right()  = right() + jitter_.x();
    bottom() = bottom() + jitter_.y();
    top()    = top() + jitter_.y();""","""    for( size_t i = 0; i < 4; ++i )
        array[ i ] += jitter_.array[ i / 2 ];"""),
(F,"""    M( 0,0 ) = 2.0 / ( right() - left() );
    M( 0,1 ) = 0.0;
    M( 0,2 ) = 0.0;
    M( 0,3 ) = -( right() + left() ) / ( right() - left() );
""","""    const T width_ = right() - left();
    M( 0,0 ) = T( 2 ) / width_;
    M( 0,1 ) = M( 0,2 ) = 0;
    M( 0,3 ) = ( right() + left( )) / -width_;
"""),
(F,"""	const T ratio = new_near / near_plane();
	right()     *= ratio;
	left()      *= ratio;
	top()       *= ratio;
	bottom()    *= ratio;
	near_plane()  = new_near;""","""	const T old_near = near_plane();
	set( left() * new_near / old_near, right() * new_near / old_near,
	     bottom() * new_near / old_near, top() * new_near / old_near,
	     new_near, far_plane( ));"""),
(F,"""    return fabs( right() - left( ));""","""    return right() < left() ? left() - right() : right() - left();"""),
# ---------------------------------------------------------------- culler
(C,"""    const vec4& row0 = proj_modelview.get_row( 0 );
    const vec4& row1 = proj_modelview.get_row( 1 );
    const vec4& row2 = proj_modelview.get_row( 2 );
    const vec4& row3 = proj_modelview.get_row( 3 );

    _left_plane   = row3 + row0;
    _right_plane  = row3 - row0;
    _bottom_plane = row3 + row1;
    _top_plane    = row3 - row1;
    _near_plane   = row3 + row2;
    _far_plane    = row3 - row2;
""","""    vec4 rows[4];
    for( size_t i = 0; i < 4; ++i )
        proj_modelview.get_row( i, rows[i] );

    _far_plane    = rows[3] - rows[2];
    _near_plane   = rows[2] + rows[3];
    _top_plane    = rows[3] - rows[1];
    _bottom_plane = rows[1] + rows[3];
    _right_plane  = rows[3] - rows[0];
    _left_plane   = rows[0] + rows[3];
"""),
(C,"""    _left_plane   = compute_plane( c, a, e );
    _right_plane  = compute_plane( f, b, d );
    _bottom_plane = compute_plane( h, d, c );
    _top_plane    = compute_plane( a, b, f );
    _near_plane   = compute_plane( b, a, c );
    _far_plane    = compute_plane( g, e, f );""","""    _left_plane   = compute_plane( e, c, a );
    _right_plane  = compute_plane( d, f, b );
    _bottom_plane = compute_plane( g, h, d );
    _top_plane    = compute_plane( f, e, a );
    _near_plane   = compute_plane( d, b, a );
    _far_plane    = compute_plane( h, g, e );"""),
(C,"""    T distance = _left_plane.x() * sphere.x() + _left_plane.y() * sphere.y() +
                 _left_plane.z() * sphere.z() + _left_plane.w();
    if( distance <= -sphere.w() )
        return VISIBILITY_NONE;
    if( distance < sphere.w() )
        visibility = VISIBILITY_PARTIAL;
""","""    const vec3 center_( sphere.x(), sphere.y(), sphere.z( ));
    T distance = _left_plane.distance_to_plane( center_ );
    if( distance < sphere.w( ))
    {
        if( distance <= -sphere.w( ))
            return VISIBILITY_NONE;
        visibility = VISIBILITY_PARTIAL;
    }
"""),
(C,"""    const vec3& middle = vec3( x[0] + x[1], y[0] + y[1], z[0] + z[1] ) * .5;
    const vec3& extent = vec3( fabs(x[1] - x[0]), fabs(y[1] - y[0]),
                               fabs(z[1] - z[0]) ) * .5;""","""    const vec3 middle(( x[0] + x[1] ) / 2, ( y[0] + y[1] ) / 2, ( z[0] + z[1] ) / 2 );
    const vec3 extent( std::max( x[0], x[1] ) - middle.x(),
                       std::max( y[0], y[1] ) - middle.y(),
                       std::max( z[0], z[1] ) - middle.z( ));"""),
# ------------------------------------------------------------------ aabb
(A,"""    if ( pos.x() > _max.x() || pos.y() > _max.y() || pos.z() > _max.z() ||
         pos.x() < _min.x() || pos.y() < _min.y() || pos.z() < _min.z( ))
    {
        return false;
    }
    return true;""","""    for( size_t i = 0; i < 3; ++i )
        if( !( _min.array[ i ] <= pos.array[ i ] && pos.array[ i ] <= _max.array[ i ] ))
            return false;
    return true;"""),
(A,"""    if ( point.x() < _min.x() )
        _min.x() = point.x();
    if ( point.y() < _min.y() )
        _min.y() = point.y();
    if ( point.z() < _min.z() )
        _min.z() = point.z();

    if ( point.x() > _max.x() )
        _max.x() = point.x();
    if ( point.y() > _max.y() )
        _max.y() = point.y();
    if ( point.z() > _max.z() )
        _max.z() = point.z();""","""    merge( AABB< T >( point, point ));"""),
(A,"""    _max = _min = sphere.template get_sub_vector< 3 >();
    _max += sphere.w();
    _min -= sphere.w();""","""    set( sphere.x(), sphere.y(), sphere.z(), sphere.w( ));"""),
(A,"""    return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||
             _min.z() >=  _max.z( ));""","""    return !( _min.x() < _max.x() && _min.y() < _max.y() && _min.z() < _max.z( ));"""),
(A,"""    return _min + ( ( _max - _min ) / static_cast< T >( 2 ));""","""    const T two = 2;
    return Vector< 3, T >( _min.x() + ( _max.x() - _min.x( )) / two,
                           _min.y() + ( _max.y() - _min.y( )) / two,
                           _min.z() + ( _max.z() - _min.z( )) / two );"""),
# ---------------------------------------------------------- intersection
(I,"""    if(sqDistance > sqRadius)
        t = vecProjection - distSurface;
    else
        t = vecProjection + distSurface;

    return true;""","""    const bool outside = sqDistance > sqRadius;
    t = outside ? vecProjection - distSurface : distSurface + vecProjection;
    return true;"""),
(I,"""    const vec3 center = vec3(sphere.x(), sphere.y(), sphere.z());
    const T radius = sphere.w();

    const vec3 centerVec = center - _origin;""","""    const T radius = sphere.w();
    const vec3 centerVec = sphere.template get_sub_vector< 3 >( 0 ) - _origin;"""),
# ---------------------------------------------------------------- filter
(L,"""    _data.push_front( value );

    while( _data.size() > M )
        _data.pop_back();
""","""    if( _data.size() == M )
        _data.pop_back();
    _data.push_front( value );
"""),
# -------------------------------------------------------------------- qr
(R,"""            Q.get_column( i, q_column );
            A.get_column( j, a_column );

            R( i, j ) = dot( q_column, a_column );
            v -= q_column * R(i,j);
        }
        R(j,j) = v.length();""","""            Q.get_column( i, q_column );
            // modified Gram-Schmidt: project what is left
            R( i, j ) = dot( q_column, v );
            v -= q_column * R(i,j);
        }
        R(j,j) = v.length();"""),
# ------------------------------------------------------------------ util
(U,"""    m *= create_translation< M, N, T >( Vector< M - 1, T >( t0, t1, t2 ) );""","""    const Matrix< M, N, T > t = create_translation< M, N, T >( Vector< M - 1, T >( t0, t1, t2 ));
    m = m * t;"""),
(U,"""    Matrix< M, N, T > ret;
    identity(ret);
    ret.scale(arg);

    return ret;""","""    Matrix< M, N, T > ret;
    identity(ret);
    for( size_t i = 0; i + 1 < N; ++i )
        ret( i, i ) = arg.array[ i ];

    return ret;"""),
(H,"""    return ( b >= 0.0 ) ? std::abs( a ) : -std::abs( a );""","""    const T magnitude = std::abs( a );
    return b >= T( 0 ) ? magnitude : -magnitude;"""),
(X,"""            // not comparing vectors, for which the zeros of an inverted row
            // differ: 0 != -0
            bool same = true;
            bool inverted = true;
            for( size_t col = 0; col < matrix0.get_number_of_columns(); ++col )
            {
                const typename T::value_type v0 = matrix0.at( index, col );
                const typename T::value_type v1 = matrix1.at( index, col );
                same = same && v0 == v1;
                inverted = inverted && v0 == -v1;
            }
            ok = same || inverted;""","""            size_t same = 0;
            size_t inverted = 0;
            const size_t columns = matrix0.get_number_of_columns();
            for( size_t col = 0; col < columns; ++col )
            {
                const typename T::value_type v1 = matrix1.at( index, col );
                if( matrix0.at( index, col ) == v1 )
                    ++same;
                if( matrix0.at( index, col ) == -v1 )
                    ++inverted;
            }
            ok = same == columns || inverted == columns;"""),
]
