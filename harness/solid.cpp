#include "solid.h"
namespace sol
{
V app( const Xf& x, V p ) { return v3( x.r[0][0] * p.x + x.r[0][1] * p.y + x.r[0][2] * p.z + x.t.x, x.r[1][0] * p.x + x.r[1][1] * p.y + x.r[1][2] * p.z + x.t.y, x.r[2][0] * p.x + x.r[2][1] * p.y + x.r[2][2] * p.z + x.t.z ); }
Xf mul( const Xf& a, const Xf& b )
{
    Xf o; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) { o.r[i][j] = 0; for( int k = 0; k < 3; ++k ) o.r[i][j] += a.r[i][k] * b.r[k][j]; }
    o.t = app( a, b.t ); return o;
}
static void boor( int d, int n, const std::vector<LD>& k, LD t, std::vector<std::vector<LD>>& h )      // h: n homogeneous points -> h[0] result
{
    int m = d; for( int i = d; i < n; ++i ) if( k[i] <= t && k[i + 1] > k[i] ) m = i;
    std::vector<std::vector<LD>> b( d + 1 ); for( int j = 0; j <= d; ++j ) b[j] = h[m - d + j];
    for( int r = 1; r <= d; ++r ) for( int j = d; j >= r; --j )
    {
        LD lo = k[j + m - d], hi = k[j + 1 + m - r], a = ( t - lo ) / ( hi - lo );
        for( int q = 0; q < 4; ++q ) b[j][q] = ( 1 - a ) * b[j - 1][q] + a * b[j][q];
    }
    h[0] = b[d];
}
V Nurbs::at( LD t ) const
{
    std::vector<std::vector<LD>> h; for( int i = 0; i < n; ++i ) h.push_back( { c[i].x * w[i], c[i].y * w[i], c[i].z * w[i], w[i] } );
    boor( d, n, k, t, h ); return v3( h[0][0] / h[0][3], h[0][1] / h[0][3], h[0][2] / h[0][3] );
}
V Curve::at( LD t ) const
{
    if( k == LINE ) return app( x, a + t * ( b - a ) );
    if( k == ARC ) return app( x, v3( c.x + r * cosl( a0 + t * sw ), c.y + r * sinl( a0 + t * sw ), zt ) );
    return app( x, n.at( n.v0 + t * ( n.v1 - n.v0 ) ) );
}
LD Curve::length() const
{
    if( k == LINE ) return len( b - a );
    if( k == ARC ) return r * fabsl( sw );
    LD l = 0; V p = at( 0 ); for( int i = 1; i <= 64; ++i ) { V q = at( i / 64.0L ); l += len( q - p ); p = q; } return l;
}
LD Curve::distTo( V p ) const
{
    // into definition space (rigid)
    V q = p - x.t; V l = v3( x.r[0][0] * q.x + x.r[1][0] * q.y + x.r[2][0] * q.z, x.r[0][1] * q.x + x.r[1][1] * q.y + x.r[2][1] * q.z, x.r[0][2] * q.x + x.r[1][2] * q.y + x.r[2][2] * q.z );
    if( k == LINE )
    {
        V u = b - a; LD m = dot( u, u ), t = m > 0 ? dot( l - a, u ) / m : 0; t = std::max( (LD)0, std::min( (LD)1, t ) ); return len( l - ( a + t * u ) );
    }
    if( k == ARC )
    {
        LD an = atan2l( l.y - c.y, l.x - c.x ), t = an - a0; while( t < 0 ) t += 2 * PIL; while( t >= 2 * PIL ) t -= 2 * PIL;
        if( t <= sw || sw >= 2 * PIL - 1e-12L ) return hypotl( hypotl( l.x - c.x, l.y - c.y ) - r, l.z - zt );
        return std::min( len( p - at( 0 ) ), len( p - at( 1 ) ) );
    }
    LD d = 1e30L; for( int i = 0; i <= 64; ++i ) d = std::min( d, len( p - at( i / 64.0L ) ) ); return d;
}
V Surf::at( LD u, LD v ) const
{
    if( type == 128 )
    {
        std::vector<std::vector<LD>> col;
        for( int j = 0; j < n2; ++j )
        {
            std::vector<std::vector<LD>> h; for( int i = 0; i < n1; ++i ) { const V& p = c[j * n1 + i]; LD q = w[j * n1 + i]; h.push_back( { p.x * q, p.y * q, p.z * q, q } ); }
            boor( d1, n1, k1, u, h ); col.push_back( h[0] );
        }
        boor( d2, n2, k2, v, col ); return app( x, v3( col[0][0] / col[0][3], col[0][1] / col[0][3], col[0][2] / col[0][3] ) );
    }
    // revolution of the generatrix by the angle v about the directed axis
    V o = axis.at( 0 ), e = axis.at( 1 ) - o; e = ( 1 / len( e ) ) * e; V p = gen.at( u ) - o;
    V par = dot( p, e ) * e, per = p - par;
    return app( x, o + par + cosl( v ) * per + sinl( v ) * cross( e, per ) );
}
V Surf::normal( LD u, LD v ) const
{
    LD hu = ( u1 - u0 ) * 1e-5L, hv = ( v1 - v0 ) * 1e-5L;
    V a = at( std::min( u + hu, u1 ), v ) - at( std::max( u - hu, u0 ), v ), b = at( u, std::min( v + hv, v1 ) ) - at( u, std::max( v - hv, v0 ) );
    return cross( a, b );
}
LD num( const PDoc& d, int e, size_t k ) { REQ( k < d.ents[e].params.size(), "entity " << e << " lacks parameter " << k ); const Tok& t = d.ents[e].params[k]; if( t.empty() ) return 0; double v = 0; REQ( tokReal( t, v, false ), "entity " << e << " parameter " << k << " is no number" ); return v; }
long ptr( const PDoc& d, int e, size_t k ) { long v = (long)num( d, e, k ); if( v <= 0 ) return -1; REQ( ( v & 1 ) && v / 2 < (long)d.ents.size(), "pointer " << v << " of entity " << e ); return v / 2; }
std::string str( const PDoc& d, int e, size_t k ) { REQ( k < d.ents[e].params.size(), "entity " << e << " lacks parameter " << k ); return d.ents[e].params[k].s; }
Xf transformOf( const PDoc& d, int e )
{
    Xf o; int guard = 0;
    for( int q = d.ents[e].xform; q > 0; q = d.ents[q / 2].xform )
    {
        REQ( ++guard < 100, "cyclic transformations" ); int t = q / 2; REQ( d.ents[t].type == 124, "transformation of type " << d.ents[t].type );
        Xf x; for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) x.r[i][j] = num( d, t, 1 + 4 * i + j ); }
        x.t = v3( num( d, t, 4 ), num( d, t, 8 ), num( d, t, 12 ) );
        LD det = dot( v3( x.r[0][0], x.r[0][1], x.r[0][2] ), cross( v3( x.r[1][0], x.r[1][1], x.r[1][2] ), v3( x.r[2][0], x.r[2][1], x.r[2][2] ) ) );
        REQ( fabsl( fabsl( det ) - 1 ) < 1e-6L, "the transformation matrix " << t << " is not orthonormal (determinant " << (double)det << ")" );
        if( d.ents[t].form < 2 ) REQ( ( det > 0 ) == ( d.ents[t].form == 0 ), "transformation matrix " << t << " of form " << d.ents[t].form << " has determinant " << (double)det );
        o = mul( x, o );
    }
    return o;
}
static Curve curve( const PDoc& d, int e )
{
    REQ( e >= 0, "a curve is missing" ); Curve k; k.ent = e; k.x = transformOf( d, e );
    switch( d.ents[e].type )
    {
    case 110: k.k = Curve::LINE; k.a = v3( num( d, e, 1 ), num( d, e, 2 ), num( d, e, 3 ) ); k.b = v3( num( d, e, 4 ), num( d, e, 5 ), num( d, e, 6 ) ); break;
    case 100:
    {
        k.k = Curve::ARC; k.zt = num( d, e, 1 ); k.c = v3( num( d, e, 2 ), num( d, e, 3 ), 0 ); LD sx = num( d, e, 4 ) - k.c.x, sy = num( d, e, 5 ) - k.c.y, ex = num( d, e, 6 ) - k.c.x, ey = num( d, e, 7 ) - k.c.y;
        LD r1 = hypotl( sx, sy ), r2 = hypotl( ex, ey ); REQ( fabsl( r1 - r2 ) < 1e-6L * ( 1 + r1 ), "arc " << e << " has the radii " << (double)r1 << " and " << (double)r2 );
        k.r = ( r1 + r2 ) / 2; k.a0 = atan2l( sy, sx ); k.sw = atan2l( ey, ex ) - k.a0; if( hypotl( sx - ex, sy - ey ) < 1e-9L * ( 1 + r1 ) ) k.sw = 0; if( k.sw <= 0 ) k.sw += 2 * PIL; break;
    }
    case 126:
    {
        k.k = Curve::SPLINE; Nurbs& n = k.n; int K = (int)num( d, e, 1 ); n.d = (int)num( d, e, 2 ); n.n = K + 1; size_t q = 7;
        REQ( n.d >= 1 && K >= n.d && K < 10000, "spline " << e << ": degree " << n.d << ", upper index " << K );
        for( int i = 0; i <= K + n.d + 1; ++i ) n.k.push_back( num( d, e, q++ ) );
        for( int i = 0; i <= K; ++i ) n.w.push_back( num( d, e, q++ ) );
        for( int i = 0; i <= K; ++i ) { LD x = num( d, e, q++ ), y = num( d, e, q++ ); n.c.push_back( v3( x, y, num( d, e, q++ ) ) ); }
        n.v0 = num( d, e, q++ ); n.v1 = num( d, e, q++ );
        for( size_t i = 1; i < n.k.size(); ++i ) REQ( n.k[i] >= n.k[i - 1], "spline " << e << ": knots decrease" );
        {   // flags: planar (with its normal), closed, polynomial
            bool pl = num( d, e, 3 ) != 0, cl = num( d, e, 4 ) != 0, po = num( d, e, 5 ) != 0; LD ww = n.w[0]; bool eq = true; for( LD x : n.w ) { REQ( x > 0, "spline " << e << ": weight " << (double)x ); eq = eq && fabsl( x - ww ) < 1e-12L; }
            REQ( po == eq, "spline " << e << " is said to be " << ( po ? "polynomial" : "rational" ) << " but its weights are " << ( eq ? "" : "not " ) << "equal" );
            LD sz = 0; for( auto& x : n.c ) sz = std::max( sz, len( x - n.c[0] ) );
            V a = n.c[0], b = n.c.back(); if( cl ) REQ( len( a - b ) < 1e-6L * ( 1 + sz ), "spline " << e << " is said to be closed" ); else REQ( len( a - b ) > 0, "spline " << e << " is said to be open" );
            if( pl ) { V nn = v3( num( d, e, q ), num( d, e, q + 1 ), num( d, e, q + 2 ) ); REQ( fabsl( len( nn ) - 1 ) < 1e-6L, "spline " << e << " is planar but its normal has the length " << (double)len( nn ) ); for( auto& x : n.c ) REQ( fabsl( dot( x - a, nn ) ) < 1e-6L * ( 1 + sz ), "spline " << e << " is not in the plane of its normal" ); }
        }
        REQ( n.v1 > n.v0 && n.v0 >= n.k[n.d] - 1e-9L && n.v1 <= n.k[n.n] + 1e-9L, "spline " << e << ": parameter range" );
        break;
    }
    default: FAILMSG( "curve of type " << d.ents[e].type );
    }
    return k;
}
static std::vector<Curve> chain( const PDoc& d, int e )
{
    std::vector<Curve> o; REQ( e >= 0, "a boundary curve is missing" );
    if( d.ents[e].type != 102 ) { o.push_back( curve( d, e ) ); return o; }
    Xf x = transformOf( d, e );
    int n = (int)num( d, e, 1 ); for( int i = 0; i < n; ++i ) { Curve k = curve( d, ptr( d, e, 2 + i ) ); k.x = mul( x, k.x ); o.push_back( k ); }
    REQ( !o.empty(), "empty composite curve" ); return o;
}
static Surf surf( const PDoc& d, int e )
{
    REQ( e >= 0, "a surface is missing" ); Surf s; s.type = d.ents[e].type; s.x = transformOf( d, e );
    if( s.type == 128 )
    {
        int K1 = (int)num( d, e, 1 ), K2 = (int)num( d, e, 2 ); s.d1 = (int)num( d, e, 3 ); s.d2 = (int)num( d, e, 4 ); s.n1 = K1 + 1; s.n2 = K2 + 1; size_t q = 10;
        REQ( s.d1 >= 1 && s.d2 >= 1 && K1 >= s.d1 && K2 >= s.d2 && K1 < 1000 && K2 < 1000, "spline surface " << e );
        for( int i = 0; i <= K1 + s.d1 + 1; ++i ) s.k1.push_back( num( d, e, q++ ) );
        for( int i = 0; i <= K2 + s.d2 + 1; ++i ) s.k2.push_back( num( d, e, q++ ) );
        for( int i = 0; i < s.n1 * s.n2; ++i ) s.w.push_back( num( d, e, q++ ) );
        for( int i = 0; i < s.n1 * s.n2; ++i ) { LD x = num( d, e, q++ ), y = num( d, e, q++ ); s.c.push_back( v3( x, y, num( d, e, q++ ) ) ); }
        { bool po = num( d, e, 7 ) != 0, eq = true; for( LD x : s.w ) eq = eq && fabsl( x - s.w[0] ) < 1e-12L; REQ( po == eq, "spline surface " << e << " is said to be " << ( po ? "polynomial" : "rational" ) ); }
        s.u0 = num( d, e, q++ ); s.u1 = num( d, e, q++ ); s.v0 = num( d, e, q++ ); s.v1 = num( d, e, q++ );
        REQ( s.u1 > s.u0 && s.v1 > s.v0, "spline surface " << e << ": parameter range" );
        return s;
    }
    REQ( s.type == 120, "surface of type " << s.type );
    s.axis = curve( d, ptr( d, e, 1 ) ); s.gen = curve( d, ptr( d, e, 2 ) ); s.v0 = num( d, e, 3 ); s.v1 = num( d, e, 4 );
    REQ( s.axis.k == Curve::LINE, "the axis of revolution is no line" ); REQ( s.v1 > s.v0 && s.v1 - s.v0 <= 2 * PIL + 1e-6L, "angles of revolution" );
    if( s.gen.k == Curve::ARC ) { s.u0 = s.gen.a0; s.u1 = s.gen.a0 + s.gen.sw; } else if( s.gen.k == Curve::SPLINE ) { s.u0 = s.gen.n.v0; s.u1 = s.gen.n.v1; }
    REQ( s.gen.k == Curve::LINE, "harness: generatrix other than a line" );
    return s;
}
static Loop loop( const PDoc& d, int e, int pts )
{
    REQ( e >= 0 && d.ents[e].type == 142, "a boundary is no curve on a surface" );
    REQ( ptr( d, e, 2 ) == pts, "the boundary " << e << " lies on surface " << ptr( d, e, 2 ) << " instead of " << pts );
    REQ( d.ents[e].dep & 1, "the boundary " << e << " is not physically dependent" );
    long bp = ptr( d, e, 3 ), cp = ptr( d, e, 4 ); REQ( bp >= 0 && cp >= 0, "boundary " << e << " lacks a curve" );
    REQ( ( d.ents[bp].dep & 1 ) && ( d.ents[cp].dep & 1 ), "a curve of boundary " << e << " is not physically dependent" );
    for( long t : { bp, cp } ) if( d.ents[t].type == 102 ) for( int i = 0; i < (int)num( d, t, 1 ); ++i ) { long x = ptr( d, t, 2 + i ); REQ( x >= 0 && ( d.ents[x].dep & 1 ), "a curve of composite " << t << " is not physically dependent" ); }
    Loop l; l.b = chain( d, ptr( d, e, 3 ) ); l.c = chain( d, ptr( d, e, 4 ) ); return l;
}
Face face( const PDoc& d, int e )
{
    Face f; f.ent = e; f.color = d.ents[e].color; REQ( d.ents[e].type == 144, "face of type " << d.ents[e].type );
    int pts = ptr( d, e, 1 ); REQ( pts >= 0 && ( d.ents[pts].dep & 1 ), "the surface of face " << e << " is not physically dependent" ); f.s = surf( d, pts ); f.outerGiven = num( d, e, 2 ) != 0; int n2 = (int)num( d, e, 3 );
    if( ptr( d, e, 4 ) >= 0 ) f.outer = loop( d, ptr( d, e, 4 ), pts );
    for( int i = 0; i < n2; ++i ) f.inner.push_back( loop( d, ptr( d, e, 5 + i ), pts ) );
    return f;
}
std::vector<Face> faces( const PDoc& d ) { std::vector<Face> o; for( size_t i = 0; i < d.ents.size(); ++i ) if( d.ents[i].type == 144 ) o.push_back( face( d, i ) ); return o; }
static std::string S( V p ) { return strf( "(%.10g,%.10g,%.10g)", (double)p.x, (double)p.y, (double)p.z ); }
static void checkLoop( const Face& f, const Loop& l, LD tol, const char* what )
{
    size_t n = l.c.size(), m = l.b.size();
    REQ( n && m, what << " of face " << f.ent << " is empty" );
    LD su = f.s.u1 - f.s.u0, sv = f.s.v1 - f.s.v0, ut = 1e-6L * ( su + sv );
    for( size_t i = 0; i < n; ++i ) { V a = l.c[i].at( 1 ), b = l.c[( i + 1 ) % n].at( 0 ); REQ( len( a - b ) < tol, what << " of face " << f.ent << ": gap of " << (double)len( a - b ) << " between curves " << l.c[i].ent << " and " << l.c[( i + 1 ) % n].ent << " at " << S( a ) << " " << S( b ) ); }
    for( size_t i = 0; i < m; ++i ) { V a = l.b[i].at( 1 ), b = l.b[( i + 1 ) % m].at( 0 ); REQ( hypotl( a.x - b.x, a.y - b.y ) < ut, what << " of face " << f.ent << ": gap in parameter space between curves " << l.b[i].ent << " and " << l.b[( i + 1 ) % m].ent << " at " << S( a ) << " " << S( b ) ); }
    REQ( n == m, what << " of face " << f.ent << " has " << n << " curves in space and " << m << " in parameter space" );
    for( size_t i = 0; i < n; ++i ) for( int j = 0; j <= 8; ++j )
    {
        V p = l.b[i].at( j / 8.0L );
        REQ( p.x > f.s.u0 - ut && p.x < f.s.u1 + ut && p.y > f.s.v0 - ut && p.y < f.s.v1 + ut, what << " of face " << f.ent << " leaves the parameter range of the surface at " << S( p ) );
        V q = f.s.at( p.x, p.y ); LD e = l.c[i].distTo( q );
        REQ( e < tol, what << " of face " << f.ent << ": curve " << l.b[i].ent << " in parameter space leads to " << S( q ) << " which is " << (double)e << " away from curve " << l.c[i].ent << " in space" );
        if( j == 0 ) REQ( len( q - l.c[i].at( 0 ) ) < tol, what << " of face " << f.ent << ": curves " << l.b[i].ent << " and " << l.c[i].ent << " start at different points " << S( q ) << " " << S( l.c[i].at( 0 ) ) );
        if( j == 8 ) REQ( len( q - l.c[i].at( 1 ) ) < tol, what << " of face " << f.ent << ": curves " << l.b[i].ent << " and " << l.c[i].ent << " end at different points " << S( q ) << " " << S( l.c[i].at( 1 ) ) );
    }
}
void checkFace( const Face& f, LD tol )
{
    if( f.outerGiven || !f.outer.c.empty() ) checkLoop( f, f.outer, tol, "outer boundary" );
    for( auto& l : f.inner ) checkLoop( f, l, tol, "inner boundary" );
}
}
