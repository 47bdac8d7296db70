V="vmmlib/vector.hpp"; M="vmmlib/matrix.hpp"; Q="vmmlib/quaternion.hpp"; F="vmmlib/frustum.hpp"; C="vmmlib/frustum_culler.hpp"
A="vmmlib/aabb.hpp"; I="vmmlib/intersection.hpp"; L="vmmlib/lowpass_filter.hpp"; R="vmmlib/qr_decomposition.hpp"; H="vmmlib/math.hpp"; U="vmmlib/util.hpp"
EDITS=[
# vector
(V,"""        result.at( index ) = at( index ) * other.at( index );
    return result;""","""    {
        T value_ = at( index );
        value_ *= other.at( index );
        result.at( index ) = value_;
    }
    return result;"""),
(V,"""    for( size_t index = 0; index < M; ++index )
        at( index ) += other.at( index );""","""    for( size_t index = M; index-- > 0; )
        array[ index ] = array[ index ] + other.array[ index ];"""),
(V,"""    for( size_t index = 0; index < M; ++index )
        at( index ) -= other;""","""    std::transform( begin(), end(), begin(),
                    [other]( const T& value_ ) { return value_ - other; } );"""),
(V,"""    T tmp = 0.0;
    for( size_t index = 0; index < M; ++index )
        tmp += at( index ) * other.at( index );

    return tmp;""","""    T sum_ = at( M - 1 ) * other.at( M - 1 );
    for( size_t index = M - 1; index > 0; --index )
        sum_ += at( index - 1 ) * other.at( index - 1 );

    return sum_;"""),
(V,"""    const T tmp = 1.0 / len;
    (*this) *= tmp;
    return len;""","""    (*this) /= len;
    return len;"""),
(V,"""    T _squared_length = 0.0;
    for( const_iterator it = begin(), it_end = end(); it != it_end; ++it )
        _squared_length += (*it) * (*it);

    return _squared_length;""","""    return dot( *this );"""),
(V,"""    Vector< M, T > tmp( *this );
    tmp -= other;
    return tmp.squared_length();""","""    T sum_ = 0;
    for( size_t index = 0; index < M; ++index )
    {
        const T difference = at( index ) - other.at( index );
        sum_ += difference * difference;
    }
    return sum_;"""),
(V,"""    T result = at( 0 );
    for( size_t i = 1; i < M; ++i )
        result *= at( i );
    return result;""","""    T result = 1;
    for( const_iterator it = begin(); it != end(); ++it )
        result *= *it;
    return result;"""),
(V,"""    Vector< M, T > u,v;
    // right hand system, CCW triangle
    u = bb - aa;
    v = cc - aa;
    cross( u, v );
    normalize();""","""    const Vector< M, T > v( cc - aa );
    const Vector< M, T > u( bb - aa );
    *this = u.cross( v );
    normalize();"""),
(V,"""    const T costheta = std::cos( theta );
    const T sintheta = std::sin( theta );

    return Vector< 3, T >(
        (costheta + ( 1.0f - costheta ) * axis.x() * axis.x() ) * x()    +
        (( 1 - costheta ) * axis.x() * axis.y() - axis.z() * sintheta ) * y() +
        (( 1 - costheta ) * axis.x() * axis.z() + axis.y() * sintheta ) * z(),

        (( 1 - costheta ) * axis.x() * axis.y() + axis.z() * sintheta ) * x() +
        ( costheta + ( 1 - costheta ) * axis.y() * axis.y() ) * y() +
        (( 1 - costheta ) * axis.y() * axis.z() - axis.x() * sintheta ) * z(),

        (( 1 - costheta ) * axis.x() * axis.z() - axis.y() * sintheta ) * x() +
        (( 1 - costheta ) * axis.y() * axis.z() + axis.x() * sintheta ) * y() +
        ( costheta + ( 1 - costheta ) * axis.z() * axis.z() ) * z() );""","""    const T s_ = std::sin( theta );
    const T c_ = std::cos( theta );
    const T t_ = 1 - c_;
    const T ax = axis.x();
    const T ay = axis.y();
    const T az = axis.z();
    const T txy = t_ * ax * ay;
    const T txz = t_ * ax * az;
    const T tyz = t_ * ay * az;

    Vector< 3, T > result;
    result.z() = ( txz - ay * s_ ) * x() + ( tyz + ax * s_ ) * y() +
                 ( t_ * az * az + c_ ) * z();
    result.y() = ( txy + az * s_ ) * x() + ( t_ * ay * ay + c_ ) * y() +
                 ( tyz - ax * s_ ) * z();
    result.x() = ( t_ * ax * ax + c_ ) * x() + ( txy - az * s_ ) * y() +
                 ( txz + ay * s_ ) * z();
    return result;"""),
(V,"""    projected_point -= _center;
    projected_point.normalize();
    projected_point *= w();
    return _center + projected_point;""","""    projected_point -= _center;
    const T length_ = projected_point.length();
    if( length_ == 0 )
        return _center;
    projected_point *= w() / length_;
    projected_point += _center;
    return projected_point;"""),
(V,"""    return ( point - center_ ).length() - w();""","""    return center_.distance( point ) - w();"""),
(V,"""    return normal.dot( point ) + w();""","""    return w() + ( normal.x() * point.x() + normal.y() * point.y() +
                   normal.z() * point.z( ));"""),
(V,"""    return memcmp( array, other.array, sizeof( array )) == 0;""","""    return std::equal( begin(), end(), other.begin( ));"""),
(V,"""        if (at( index ) < other.at( index )) return true;
        if (other.at( index ) < at( index )) return false;
    }
    return false;""","""        const T& lhs = at( index );
        const T& rhs = other.at( index );
        if( lhs < rhs || rhs < lhs )
            return lhs < rhs;
    }
    return false;"""),
(V,"""        if( array[i] < min )
            array[i] = min;
        if( array[i] > max )
            array[i] = max;""","""        T& value_ = array[i];
        if( value_ < min )
            value_ = min;
        if( value_ > max )
            value_ = max;"""),
(V,"""    T range       = max_value-min_value;
    T half_range  = range * 0.5;
    T scale       = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );
""","""    const T range = max_value - min_value;
    const T scale = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );
    const T half_range = range * 0.5;
"""),
(V,"""    const_iterator it = begin(), it_end = end();
    bool one = false;
    for( ; it != it_end; ++it )
    {
        if ( *it == 1.0 )
        {
            if ( one )
                return false;
            one = true;
        }
        else if ( *it != 0.0 )
        {
            return false;
        }
    }
    return one;""","""    size_t ones = 0, zeros = 0;
    for( size_t i = 0; i < M; ++i )
    {
        if( array[ i ] == 1.0 )
            ++ones;
        else if( array[ i ] == 0.0 )
            ++zeros;
    }
    return ones == 1 && zeros + 1 == M;"""),
# matrix
(M,"""            T& component = at( row_index, col_index );
            component = static_cast< T >( 0.0 );
            for( size_t p = 0; p < P; p++)
            {
                component += left.at( row_index, p ) * right.at( p, col_index );
            }""","""            T sum_ = left.at( row_index, P - 1 ) * right.at( P - 1, col_index );
            for( size_t p = P - 1; p-- > 0; )
                sum_ += left.at( row_index, p ) * right.at( p, col_index );
            at( row_index, col_index ) = sum_;"""),
(M,"""    for( size_t row_index = 0; row_index < M; row_index++)
    {
        for( size_t col_index = 0; col_index < N; col_index++ )
        {
            T& value = at( row_index, col_index );
            value *= other.at( row_index, col_index );
        }
    }""","""    for( size_t i = 0; i < M * N; ++i )
        array[ i ] *= other.array[ i ];"""),
(M,"""            double sum = 0.0;

            for(size_t j = 0; j < U; ++j)
            {
                int srcy = y_ - U/2 + j;

                // Extending border values
                if(srcy < 0)       srcy = 0;
                if(srcy >= int(M)) srcy = M-1;

                for(size_t i = 0; i < V; ++i)
                {
                    int srcx = x_ - V/2 + i;

                    // Extending border values
                    if(srcx < 0)       srcx = 0;
                    if(srcx >= int(N)) srcx = N-1;
""","""            double sum = 0.0;

            for(size_t i = 0; i < V; ++i)
            {
                // Extending border values
                const int srcx = std::max( 0, std::min( int( N ) - 1, int( x_ ) - int( V / 2 ) + int( i )));

                for(size_t j = 0; j < U; ++j)
                {
                    const int srcy = std::max( 0, std::min( int( M ) - 1, int( y_ ) - int( U / 2 ) + int( j )));
"""),
(M,"""    return
        m03 * m12 * m21 * m30
            - m02 * m13 * m21 * m30
            - m03 * m11 * m22 * m30
            + m01 * m13 * m22 * m30
            + m02 * m11 * m23 * m30
            - m01 * m12 * m23 * m30
            - m03 * m12 * m20 * m31
            + m02 * m13 * m20 * m31
            + m03 * m10 * m22 * m31
            - m00 * m13 * m22 * m31
            - m02 * m10 * m23 * m31
            + m00 * m12 * m23 * m31
            + m03 * m11 * m20 * m32
            - m01 * m13 * m20 * m32
            - m03 * m10 * m21 * m32
            + m00 * m13 * m21 * m32
            + m01 * m10 * m23 * m32
            - m00 * m11 * m23 * m32
            - m02 * m11 * m20 * m33
            + m01 * m12 * m20 * m33
            + m02 * m10 * m21 * m33
            - m00 * m12 * m21 * m33
            - m01 * m10 * m22 * m33
            + m00 * m11 * m22 * m33;""","""    const T s0 = m00 * m11 - m10 * m01;
    const T s1 = m00 * m12 - m10 * m02;
    const T s2 = m00 * m13 - m10 * m03;
    const T s3 = m01 * m12 - m11 * m02;
    const T s4 = m01 * m13 - m11 * m03;
    const T s5 = m02 * m13 - m12 * m03;
    const T c5 = m22 * m33 - m32 * m23;
    const T c4 = m21 * m33 - m31 * m23;
    const T c3 = m21 * m32 - m31 * m22;
    const T c2 = m20 * m33 - m30 * m23;
    const T c1 = m20 * m32 - m30 * m22;
    const T c0 = m20 * m31 - m30 * m21;
    return s0 * c5 - s1 * c4 + s2 * c3 + s3 * c2 - s4 * c1 + s5 * c0;"""),
(M,"""    const T detinv = static_cast< T >( 1.0 ) / det_;

    m_.get_adjugate( inverse_ ); // set inverse_ to the adjugate of M
    inverse_ *= detinv;
    return true;""","""    const T m00 = m_( 0, 0 ) / det_;
    inverse_( 0, 0 ) = m_( 1, 1 ) / det_;
    inverse_( 0, 1 ) = -m_( 0, 1 ) / det_;
    inverse_( 1, 0 ) = -m_( 1, 0 ) / det_;
    inverse_( 1, 1 ) = m00;
    return true;"""),
(M,"""   const T detinv = static_cast< T >( 1.0 ) / determinant;

   for( size_t i = 0; i != 16; ++i )
       inv_.array[i] *= detinv;""","""   for( size_t i = 0; i != 16; ++i )
       inv_.array[i] /= determinant;"""),
(M,"""    if( minL < M || minC < N )
        zero();

    for ( size_t i = 0 ; i < minL ; i++ )
        for ( size_t j = 0 ; j < minC ; j++ )
            at( i,j ) = static_cast< T >( source_( i, j ));""","""    for( size_t j = 0 ; j < N ; ++j )
        for( size_t i = 0 ; i < M ; ++i )
            at( i, j ) = i < minL && j < minC ? static_cast< T >( source_( i, j )) : T( 0 );"""),
(M,"""    const T _zero = 0.0;
    const T one = 1.0;
    const T two = 2.0;

    array[0]  = cosine + ( one - cosine ) * std::pow( axis.array[0], two );
    array[1]  = ( one - cosine ) * axis.array[0] * axis.array[1] + sine * axis.array[2];
    array[2]  = ( one - cosine ) * axis.array[0] * axis.array[2] - sine * axis.array[1];""","""    const T _zero = 0.0;
    const T one = 1.0;
    const T two = 2.0;
    const T turn_ = one - cosine;

    array[0]  = cosine + turn_ * ( axis.array[0] * axis.array[0] );
    array[1]  = axis.array[0] * axis.array[1] * turn_ + axis.array[2] * sine;
    array[2]  = axis.array[0] * axis.array[2] * turn_ - axis.array[1] * sine;"""),
(M,"""    tmp         = array[ 4 ] * cosine + array[ 8 ] * sine;
    array[ 8 ]  = - array[ 4 ] * sine + array[ 8 ] * cosine;
    array[ 4 ]  = tmp;

    tmp         = array[ 5 ] * cosine + array[ 9 ] * sine;
    array[ 9 ]  = - array[ 5 ] * sine + array[ 9 ] * cosine;
    array[ 5 ]  = tmp;

    tmp         = array[ 6 ] * cosine + array[ 10 ] * sine;
    array[ 10 ] = - array[ 6 ] * sine + array[ 10 ] * cosine;
    array[ 6 ]  = tmp;

    tmp         = array[ 7 ] * cosine + array[ 11 ] * sine;
    array[ 11 ] = - array[ 7 ] * sine + array[ 11 ] * cosine;
    array[ 7 ]  = tmp;
""","""    for( size_t i = 0; i < 4; ++i )
    {
        tmp              = array[ 4 + i ];
        array[ 4 + i ]   = cosine * tmp + sine * array[ 8 + i ];
        array[ 8 + i ]   = cosine * array[ 8 + i ] - sine * tmp;
    }
"""),
(M,"""                if ( it == end_ )
                    return;
                at( row, col ) = static_cast< T >( *it );""","""                if ( it == end_ )
                    return;
                array[ col * M + row ] = static_cast< T >( *it );"""),
(M,"""    size_t row_offset = 0;
    size_t col_offset = 0;
    for( size_t row_index = 0; row_index < M; ++row_index )
    {
        if ( row_index == row_to_cut )
            row_offset = -1;
        else
        {
            for( size_t col_index = 0; col_index < M; ++col_index )
            {
                if ( col_index == col_to_cut )
                    col_offset = -1;
                else
                    minor_.at( row_index + row_offset, col_index + col_offset )
                        = at( row_index, col_index );
            }
            col_offset = 0;
        }
    }""","""    for( size_t row = 0; row < M - 1; ++row )
        for( size_t col = 0; col < N - 1; ++col )
            minor_.at( row, col ) = at( row < row_to_cut ? row : row + 1,
                                        col < col_to_cut ? col : col + 1 );"""),
(M,"""    for ( size_t row = 0; row < M; ++row )
    {
        get_row( row++, *row0 );
        if ( row < M )
        {
            get_row( row, *row1 );
            *row0 += *row1;
            other.set_row( row/2 , *row0 );
        }
    }
""","""    for( size_t row = 0; row + 1 < M; row += 2 )
    {
        get_row( row, *row0 );
        get_row( row + 1, *row1 );
        *row1 += *row0;
        other.set_row( row / 2, *row1 );
    }
"""),
(M,"""    double norm = 0.0;

    const_iterator it = begin(), it_end = end();
    for( ; it != it_end; ++it )
    {
        norm += static_cast< double >( *it ) * *it;
    }

    return std::sqrt(norm);""","""    double sum_of_squares = 0.0;
    for( size_t row = 0; row < M; ++row )
        for( size_t col = 0; col < N; ++col )
        {
            const double value = at( row, col );
            sum_of_squares += value * value;
        }
    return std::sqrt( sum_of_squares );"""),
(M,"""    double sum = 0.0;

    const_iterator it = begin(), it_end = end();
    for( ; it != it_end; ++it )
    {
        sum += *it;
    }

    return sum;""","""    return std::accumulate( begin(), end(), 0.0 );"""),
(M,"""        T value = 0;
        for ( size_t m = 0; m < M; ++m )
        {
            value += at( m, n );
        }
        summed_columns_.at( n ) = value;""","""        summed_columns_.at( n ) = at( M - 1, n );
        for ( size_t m = 0; m + 1 < M; ++m )
            summed_columns_.at( n ) += at( m, n );"""),
(M,"""        const double weight = ( row == 0.0 ) ? std::sqrt(1/num_rows) :
                                               std::sqrt(2/num_rows);""","""        const double weight = std::sqrt( ( row == 0 ? 1. : 2. ) / num_rows );"""),
(M,"""            fill_value = (2 * col + 1) * row * M_PI / (2*M);
            fill_value = std::cos( fill_value );""","""            fill_value = std::cos( M_PI / M * ( col + 0.5 ) * row );"""),
(M,"""#include <algorithm>""","""#include <algorithm>
#include <numeric>"""),
# quaternion
(Q,"""    const T tmp_08 = tmp_05 + tmp_06 + tmp_07;
    const T tmp_09 = 0.5 * (tmp_04 + tmp_08);
""","""    const T tmp_08 = tmp_07 + ( tmp_05 + tmp_06 );
    const T tmp_09 = ( tmp_08 + tmp_04 ) / 2;
"""),
(Q,"""    T tmp = squared_abs();
    tmp = static_cast< T >( 1.0 ) / tmp;
    return q * tmp;""","""    const T norm_ = squared_abs();
    return Quaternion< T >( q.x() / norm_, q.y() / norm_, q.z() / norm_, q.w() / norm_ );"""),
(Q,"""    return w() * q.w() + x() * q.x() + y() * q.y() + z() * q.z();""","""    return x() * q.x() + y() * q.y() + z() * q.z() + w() * q.w();"""),
(Q,"""    T w2 = w() * w();
    T x2 = x() * x();
    T y2 = y() * y();
    T z2 = z() * z();
    T wx = w() * x();""","""    const T x2 = x() * x();
    const T y2 = y() * y();
    const T z2 = z() * z();
    const T w2 = w() * w();
    T wx = w() * x();"""),
(Q,"""    M( 0, 0 ) = w2 + x2 - y2 - z2;
    M( 0, 1 ) = 2. * (xy - wz);
    M( 0, 2 ) = 2. * (xz + wy);""","""    M( 0, 0 ) = ( w2 + x2 ) - ( y2 + z2 );
    M( 0, 1 ) = 2. * xy - 2. * wz;
    M( 0, 2 ) = xz + xz + wy + wy;"""),
(Q,"""    const T one_x   = static_cast< T >( 1. - epsilon );
    if( abs_cos < one_x )
    {
        // standard slerp
        T sine = sqrt( 1. - ( cosine * cosine ) );
        T angle = atan2( sine, cosine );
        T coeff1 = std::sin( ( 1.0 - a ) * angle) / sine;
        T coeff2 = std::sin( a * angle ) / sine;

        qx *= coeff2;
        px *= coeff1;

        px += qx;
    }
    else
    {
        // linear interpolation for very small angles
        px *= 1. - a;
        qx *= a;
        px += qx;
        px.normalize();
    }

    return px;""","""    const T one_x   = static_cast< T >( 1. - epsilon );
    if( !( abs_cos < one_x ))
    {
        // linear interpolation for very small angles
        Quaternion< T > result = px * ( T( 1 ) - a ) + qx * a;
        result.normalize();
        return result;
    }

    // standard slerp
    const T sine = std::sqrt( T( 1 ) - cosine * cosine );
    const T angle = std::atan2( sine, cosine );
    return ( px * std::sin(( 1 - a ) * angle ) + qx * std::sin( a * angle )) * ( T( 1 ) / sine );"""),
# frustum
(F,"""	const T ratio = new_near / near_plane();
	right()     *= ratio;
	left()      *= ratio;
	top()       *= ratio;
	bottom()    *= ratio;
	near_plane()  = new_near;""","""	for( size_t i = 0; i < 4; ++i )
		array[ i ] = array[ i ] * new_near / near_plane();
	near_plane()  = new_near;"""),
(F,"""    M( 0,0 ) = 2.0 * near_plane() / ( right() - left() );
    M( 0,1 ) = 0.0;
    M( 0,2 ) = ( right() + left() ) / ( right() - left() );
    M( 0,3 ) = 0.0;
""","""    const T rl = 1 / ( right() - left( ));
    M( 0,3 ) = 0.0;
    M( 0,2 ) = ( right() + left( )) * rl;
    M( 0,1 ) = 0.0;
    M( 0,0 ) = 2 * near_plane() * rl;
"""),
(F,"""    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * near_plane_;
    bottom()    = - top();

    left()      = bottom() * aspect_ratio;
    right()     = top() * aspect_ratio;""","""    const T height_2 = near_plane_ * std::tan( fov_y * ( M_PI / 360.0 ));
    const T width_2 = height_2 * aspect_ratio;
    set( -width_2, width_2, -height_2, height_2, near_plane_, far_plane_ );"""),
# culler
(C,"""    const T len_i = 1.0 / v3.length();
    plane.x() *= len_i;
    plane.y() *= len_i;
    plane.z() *= len_i;
    plane.w() *= len_i;""","""    const T length_ = v3.length();
    for( size_t i = 0; i < 4; ++i )
        plane.array[ i ] /= length_;"""),
(C,"""    const T d = plane.dot( middle );
    const T n = extent.x() * fabs( plane.x( )) +
                extent.y() * fabs( plane.y( )) +
                extent.z() * fabs( plane.z( ));

    if( d - n >= 0 )
        return VISIBILITY_FULL;
    if( d + n > 0 )
        return VISIBILITY_PARTIAL;
    return VISIBILITY_NONE;""","""    const T n = fabs( plane.z( )) * extent.z() +
                fabs( plane.y( )) * extent.y() +
                fabs( plane.x( )) * extent.x();
    const T d = plane.dot( middle );

    if( d <= -n )
        return VISIBILITY_NONE;
    return d >= n ? VISIBILITY_FULL : VISIBILITY_PARTIAL;"""),
# aabb
(A,"""    sv += sphere.w();
    if ( sv.x() > _max.x() || sv.y() > _max.y() || sv.z() > _max.z() )
        return false;
    sv -= sphere.w() * static_cast< T >( 2 );
    if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() < _min.z() )
        return false;
    return true;""","""    const AABB< T > box( sv - sphere.w(), sv + sphere.w( ));
    return isIn( box._min ) && isIn( box._max );"""),
(A,"""    const Vector< 3, T >& min = aabb.getMin();
    const Vector< 3, T >& max = aabb.getMax();

    if ( min.x() < _min.x() )
        _min.x() = min.x();
    if ( min.y() < _min.y() )
        _min.y() = min.y();
    if ( min.z() < _min.z() )
        _min.z() = min.z();

    if ( max.x() > _max.x() )
        _max.x() = max.x();
    if ( max.y() > _max.y() )
        _max.y() = max.y();
    if ( max.z() > _max.z() )
        _max.z() = max.z();""","""    for( size_t i = 0; i < 3; ++i )
    {
        _max( i ) = std::max( aabb._max( i ), _max( i ));
        _min( i ) = std::min( aabb._min( i ), _min( i ));
    }"""),
(A,"""    return _min + ( ( _max - _min ) / static_cast< T >( 2 ));""","""    return _min + getDimension() / static_cast< T >( 2 );"""),
(A,"""    Vector< 3, T > center( cx, cy, cz );
    _min = center - size;
    _max = center + size;""","""    _max = _min = Vector< 3, T >( cx, cy, cz );
    _min -= size;
    _max += size;"""),
# intersection
(I,"""    const T sqCenterToProj = sqDistance - vecProjection * vecProjection;

    if( sqCenterToProj > sqRadius )
        return false;

    /** Distance from the sphere center to the surface along the ray direction*/
    const T distSurface = sqrt( sqRadius - sqCenterToProj );
""","""    const T discriminant = vecProjection * vecProjection - sqDistance + sqRadius;
    if( discriminant < 0 )
        return false;

    /** Distance from the sphere center to the surface along the ray direction*/
    const T distSurface = sqrt( discriminant );
"""),
# filter
(L,"""    while( _data.size() > M )
        _data.pop_back();
""","""    if( _data.size() > M )
        _data.resize( M );
"""),
(L,"""        _value = _value * (1 - weight) + (*i) * weight;
        weight *= _smooth_factor;""","""        _value = (*i) * weight + _value * (1 - weight);
        weight = _smooth_factor * weight;"""),
# qr
(R,"""        A.get_column( j, v );

        for( unsigned i = 0; i < j; ++i )
        {
            Q.get_column( i, q_column );
            A.get_column( j, a_column );

            R( i, j ) = dot( q_column, a_column );
            v -= q_column * R(i,j);
        }
        R(j,j) = v.length();
        Q.set_column( j, v / R(j,j) );""","""        A_.get_column( j, v );

        for( unsigned i = 0; i < j; ++i )
        {
            q_column = Q.get_column( i );
            R( i, j ) = q_column.dot( v );
            v -= q_column * R(i,j);
        }
        R(j,j) = v.normalize();
        Q.set_column( j, v );"""),
# util, math
(U,"""	for( size_t i = 0; i < M; ++i )
        ret[i] = std::min( arg0[i], arg1[i] );
""","""	std::transform( arg0.begin(), arg0.end(), arg1.begin(), ret.begin(),
                    []( const T& a, const T& b ) { return b < a ? b : a; } );
"""),
(U,"""	T ret = 0;
	for( size_t i = 0; i < M; ++i )
	{
		ret += std::abs(arg[i]);
	}

	return ret;""","""	T sum = std::abs( arg[0] );
	for( size_t i = 1; i < M; ++i )
		sum = sum + std::abs( arg[i] );
	return sum;"""),
(H,"""    if ( a > b )
        return a * std::sqrt( 1.0 + squared( b / a ) );
    else
        return ( b == 0.0 ) ? 0.0 : b * std::sqrt( 1.0 + squared( a / b ) );""","""    const T large = a > b ? a : b;
    const T small_ = a > b ? b : a;
    if( large == 0 )
        return 0;
    const T ratio = small_ / large;
    return large * std::sqrt( 1 + ratio * ratio );"""),
(H,"""    return ( b >= 0.0 ) ? std::abs( a ) : -std::abs( a );""","""    const T magnitude = std::abs( a );
    if( b < 0 || b != b )
        return -magnitude;
    return magnitude;"""),
]
