// Planar regions bounded by lines and arcs: oracle for outlines.
#ifndef REGION2D_H
#define REGION2D_H
#include "gen2d.h"
namespace g2
{
typedef std::vector<Curve> Loop;        // closed, in order

inline LD area( const Loop& l ) { LD a = 0; for( auto& k : l ) a += k.area( l[0].s ); return a; }
inline LD distTo( const Loop& l, P p ) { LD d = 1e30L; for( auto& k : l ) d = std::min( d, k.distTo( p ) ); return d; }
inline void bbox( const Loop& l, P& lo, P& hi )
{
    lo = P{ 1e30L, 1e30L }; hi = P{ -1e30L, -1e30L };
    for( auto& k : l ) { P a, b; k.bbox( a, b ); lo.x = std::min( lo.x, a.x ); lo.y = std::min( lo.y, a.y ); hi.x = std::max( hi.x, b.x ); hi.y = std::max( hi.y, b.y ); }
}
// 1 inside, 0 outside, -1 could not be decided; p must not be on the boundary
inline int inside( const Loop& l, P p )
{
    P lo, hi; bbox( l, lo, hi ); LD far = ( fabsl( p.x ) + fabsl( p.y ) + fabsl( lo.x ) + fabsl( lo.y ) + fabsl( hi.x ) + fabsl( hi.y ) + 1 ) * 3;
    for( int tr = 0; tr < 12; ++tr )
    {
        LD t = 0.7312L + 1.2345678L * tr; Curve ray = line( p, P{ p.x + far * cosl( t ), p.y + far * sinl( t ) } );
        int n = 0; bool bad = false;
        for( auto& k : l )
        {
            // work on the bare geometry: the ray must cross clearly
            if( k.t == LINE )
            {
                LD ux = cosl( t ), uy = sinl( t );
                LD a = ( k.s.x - p.x ) * uy - ( k.s.y - p.y ) * ux, b = ( k.e.x - p.x ) * uy - ( k.e.y - p.y ) * ux;
                if( fabsl( a ) < 1e-6L || fabsl( b ) < 1e-6L ) { LD m = ( k.s.x - p.x ) * ux + ( k.s.y - p.y ) * uy, q = ( k.e.x - p.x ) * ux + ( k.e.y - p.y ) * uy; if( m > -1e-5L || q > -1e-5L ) { bad = true; break; } continue; }
                if( ( a > 0 ) == ( b > 0 ) ) continue;
                LD w = a / ( a - b ); P x = k.at( w ); if( ( x.x - p.x ) * ux + ( x.y - p.y ) * uy > 0 ) ++n;
                continue;
            }
            LD ux = cosl( t ), uy = sinl( t ), h = ( k.c.x - p.x ) * uy - ( k.c.y - p.y ) * ux, m = ( k.c.x - p.x ) * ux + ( k.c.y - p.y ) * uy;
            if( fabsl( fabsl( h ) - k.r ) < 1e-6L ) { bad = true; break; }
            if( fabsl( h ) > k.r ) continue;
            LD w = sqrtl( k.r * k.r - h * h );
            for( int i = -1; i < 2 && !bad; i += 2 )
            {
                LD d = m + i * w; if( d < 0 ) continue;
                P x{ p.x + ux * d, p.y + uy * d };
                if( k.t == ARC && std::min( dist( x, k.s ), dist( x, k.e ) ) < 1e-5L ) { bad = true; break; }
                if( k.t == CIRCLE || k.along( x ) <= fabsl( k.sw ) ) ++n;
            }
            if( bad ) break;
        }
        if( !bad ) return n & 1;
    }
    return -1;
}
// the points a short way along the loop before and after p (a point of the loop), false when that is unclear
inline bool around( const Loop& l, P p, P d[2] )
{
    int n = 0; const LD st = 1e-3L;
    for( auto& k : l )
    {
        if( k.t == CIRCLE || k.distTo( p ) > 1e-7L ) { if( k.t == CIRCLE ) { LD a = atan2l( p.y - k.c.y, p.x - k.c.x ); for( int i = -1; i < 2; i += 2 ) d[n++] = P{ k.c.x + k.r * cosl( a + i * st / k.r ), k.c.y + k.r * sinl( a + i * st / k.r ) }; } continue; }
        bool s = dist( p, k.s ) < 1e-7L, e = dist( p, k.e ) < 1e-7L; LD u;
        if( s && e ) return false;
        if( s ) u = 0; else if( e ) u = 1; else if( k.t == LINE ) u = dist( p, k.s ) / k.length(); else u = k.along( p ) / fabsl( k.sw );
        LD du = st / k.length();
        if( !e ) { if( n > 1 ) return false; d[n++] = k.at( u + du ); }
        if( !s ) { if( n > 1 ) return false; d[n++] = k.at( u - du ); }
    }
    return n == 2;
}
// number of clear crossings of two loops; -1: too close to a special position to tell. Contact exactly at vertices counts if
// the loops clearly cross there.
inline int crossings( const Loop& a, const Loop& b, std::vector<P>* at = NULL, LD minSin = 0.02L, LD margin = 1e-4L, LD tang = 1e-2L, bool* vertex = NULL )
{
    std::vector<P> pts; std::vector<bool> vx;
    for( auto& x : a ) for( auto& y : b )
    {
        std::vector<X> m; LD gap;
        if( !meet( x, y, m, tang, gap ) )
        {
            // nearly parallel or touching supports: harmless only if the curves stay apart
            LD d = 1e30L; for( int i = 0; i <= 64; ++i ) { d = std::min( d, x.distTo( y.at( i / 64.0L ) ) ); d = std::min( d, y.distTo( x.at( i / 64.0L ) ) ); }
            if( d < 0.05L + std::max( x.t == LINE ? 0 : x.length(), y.t == LINE ? 0 : y.length() ) / 128 ) return -1;
            continue;
        }
        for( auto& q : m )
        {
            W u = where( x, q.p, 1e-9L, margin / q.sn ), v = where( y, q.p, 1e-9L, margin / q.sn );
            if( u == OUT || v == OUT ) continue;
            if( u == AMB || v == AMB || q.sn < minSin ) return -1;
            bool old = false; for( size_t i = 0; i < pts.size(); ++i ) if( dist( pts[i], q.p ) < 4e-9L ) { old = true; vx[i] = true; }
            if( !old ) { pts.push_back( q.p ); vx.push_back( u == END || v == END ); }
        }
    }
    for( size_t i = 0; i < pts.size(); ++i ) for( size_t j = i + 1; j < pts.size(); ++j ) if( dist( pts[i], pts[j] ) < 0.05L ) return -1;
    for( size_t i = 0; i < pts.size(); ++i ) if( vx[i] )
    {
        P d[4]; if( !around( a, pts[i], d ) || !around( b, pts[i], d + 2 ) ) return -1;
        LD t[4]; for( int j = 0; j < 4; ++j ) t[j] = atan2l( d[j].y - pts[i].y, d[j].x - pts[i].x );
        bool in[2]; LD w = fmodl( t[1] - t[0] + 4 * PI, 2 * PI );
        for( int j = 2; j < 4; ++j )
        {
            LD z = fmodl( t[j] - t[0] + 4 * PI, 2 * PI ); if( z < 0.05L || z > 2 * PI - 0.05L || fabsl( z - w ) < 0.05L ) return -1;
            in[j - 2] = z < w;
        }
        if( in[0] == in[1] ) return -1;     // they touch
        if( vertex ) *vertex = true;
    }
    if( at ) *at = pts;
    return (int)pts.size();
}
// closed, consecutive, and the curves only meet at the common ends
inline bool simple( const Loop& l )
{
    size_t n = l.size(); if( n == 1 ) return l[0].t == CIRCLE;
    for( auto& k : l ) if( k.length() < 0.05L ) return false;
    for( size_t i = 0; i < n; ++i ) for( size_t j = i + 1; j < n; ++j )
    {
        const Curve& x = l[i]; const Curve& y = l[j];
        std::vector<P> sh; if( j == i + 1 ) sh.push_back( x.e ); if( i == 0 && j == n - 1 ) sh.push_back( x.s );
        auto shared = [&]( P p ) { for( auto& q : sh ) if( dist( p, q ) < 1e-3L ) return true; return false; };
        std::vector<X> m; LD gap;
        if( meet( x, y, m, 1e-3L, gap ) )
        {
            for( auto& q : m ) { W u = where( x, q.p, 1e-3L, 1e-2L ), v = where( y, q.p, 1e-3L, 1e-2L ); if( u == OUT || v == OUT || shared( q.p ) ) continue; return false; }
        }
        // sampled distance away from shared ends
        for( int t = 0; t <= 32; ++t )
        {
            P p = x.at( t / 32.0L ), q = y.at( t / 32.0L ); LD dp = 1e30L, dq = 1e30L;
            for( auto& z : sh ) { dp = std::min( dp, dist( p, z ) ); dq = std::min( dq, dist( q, z ) ); }
            if( y.distTo( p ) < std::min( 0.02L, dp * 0.02L ) || x.distTo( q ) < std::min( 0.02L, dq * 0.02L ) ) return false;
        }
    }
    return true;
}
inline Loop reversed( const Loop& l )
{
    Loop o; for( auto i = l.rbegin(); i != l.rend(); ++i ) { Curve k = *i; std::swap( k.s, k.e ); if( k.t == ARC ) { k.a0 += k.sw; k.sw = -k.sw; } o.push_back( k ); } return o;
}
inline Curve bulge( P a, P b, LD f )       // arc from a to b with sagitta f * chord (f>0: bulging to the right of a->b, counterclockwise)
{
    LD l = dist( a, b ), sg = fabsl( f ) * l, r = ( l * l / 4 + sg * sg ) / ( 2 * sg ), h = r - sg;      // h: distance of the center from the chord (negative beyond a semicircle)
    LD ux = ( b.x - a.x ) / l, uy = ( b.y - a.y ) / l, s = f > 0 ? 1 : -1;
    P c{ ( a.x + b.x ) / 2 - s * uy * h, ( a.y + b.y ) / 2 + s * ux * h };
    c.x = (double)c.x; c.y = (double)c.y;
    // make both radii agree: move c onto the perpendicular bisector is enough up to rounding
    return arc( c, a, b, f < 0 );
}
// a simple closed outline around c with a size of about r
inline Loop genLoop( Src& s, P c, LD r, int kind = -1 )
{
    Loop l; auto D = []( LD v ) { return (LD)(double)v; };
    auto Pt = [&]( LD x, LD y ) { return P{ D( c.x + x ), D( c.y + y ) }; };
    if( kind < 0 ) kind = s.weighted( { 3, 2, 3, 3, 2, 2, 3, 2 } );
    LD w = D( r * ( 0.4L + s.range( 0, 12 ) / 20.0L ) ), h = D( r * ( 0.4L + s.range( 0, 12 ) / 20.0L ) ), q = std::min( w, h ) * ( 0.1L + s.range( 0, 8 ) / 10.0L );
    switch( kind )
    {
    case 0: { P v[4] = { Pt( -w, -h ), Pt( w, -h ), Pt( w, h ), Pt( -w, h ) }; for( int i = 0; i < 4; ++i ) l.push_back( line( v[i], v[( i + 1 ) % 4] ) ); break; }
    case 1: l.push_back( circle( c, w ) ); return l;
    case 2: case 3:     // corners rounded (outward) or notched by concave arcs
    {
        bool notch = kind == 3; q = D( q );
        P v[8] = { Pt( -w + q, -h ), Pt( w - q, -h ), Pt( w, -h + q ), Pt( w, h - q ), Pt( w - q, h ), Pt( -w + q, h ), Pt( -w, h - q ), Pt( -w, -h + q ) };
        P cc[4] = { Pt( w - q, -h + q ), Pt( w - q, h - q ), Pt( -w + q, h - q ), Pt( -w + q, -h + q ) }, cn[4] = { Pt( w, -h ), Pt( w, h ), Pt( -w, h ), Pt( -w, -h ) };
        for( int i = 0; i < 4; ++i ) { l.push_back( line( v[2 * i], v[2 * i + 1] ) ); l.push_back( arc( notch ? cn[i] : cc[i], v[2 * i + 1], v[( 2 * i + 2 ) % 8], notch ) ); }
        break;
    }
    case 4:             // slot
    {
        q = D( h * 0.5L ); P a = Pt( -w, -q ), b = Pt( w, -q ), d = Pt( w, q ), e = Pt( -w, q );
        l.push_back( line( a, b ) ); l.push_back( arc( Pt( w, 0 ), b, d, false ) ); l.push_back( line( d, e ) ); l.push_back( arc( Pt( -w, 0 ), e, a, false ) ); break;
    }
    case 5:             // two curves
    {
        P a = Pt( -w, 0 ), b = Pt( w, s.flip() ? 0 : h / 3 );
        LD f = ( 1 + s.range( 0, 30 ) ) / 20.0L, g = ( s.range( 0, 40 ) - 20 ) / 20.0L; if( fabsl( g ) < 0.04L ) g = 0; if( g <= -f + 0.1L ) g = -f / 2;
        l.push_back( bulge( a, b, f ) );
        if( g == 0 ) l.push_back( line( b, a ) ); else l.push_back( bulge( b, a, g ) );
        break;
    }
    default:            // star-shaped, any mixture of lines and arcs
    {
        int n = s.range( 3, 9 ); std::vector<P> v;
        bool grid = s.flip();
        for( int i = 0; i < n; ++i )
        {
            LD t = 2 * PI * ( i + ( s.range( 0, 60 ) - 30 ) / 100.0L ) / n, m = r * ( 0.4L + s.range( 0, 60 ) / 100.0L ); LD x = m * cosl( t ), y = m * sinl( t );
            if( grid ) { x = roundl( x ); y = roundl( y ); } v.push_back( Pt( x, y ) );
        }
        for( int i = 0; i < n; ++i )
        {
            P a = v[i], b = v[( i + 1 ) % n]; int t = kind == 7 ? 0 : s.weighted( { 2, 1, 1 } );
            if( dist( a, b ) < 0.05L ) return Loop();
            LD f = ( 1 + s.range( 0, 9 ) ) / 20.0L;
            l.push_back( t == 0 ? line( a, b ) : bulge( a, b, t == 1 ? f : -f ) );
        }
    }
    }
    if( !simple( l ) ) return Loop();
    if( area( l ) < 0 ) l = reversed( l );
    return l;
}
inline Loop moved( const Loop& l, P d )
{
    Loop o; auto M = [&]( P p ) { return P{ (LD)(double)( p.x + d.x ), (LD)(double)( p.y + d.y ) }; };
    for( auto& k : l ) o.push_back( k.t == LINE ? line( M( k.s ), M( k.e ) ) : k.t == ARC ? arc( M( k.c ), M( k.s ), M( k.e ), k.sw < 0 ) : circle( M( k.c ), k.r ) );
    return o;
}
inline std::string show( const Loop& l ) { std::string o; for( auto& k : l ) o += "  " + show( k ) + "\n"; return o; }
}
#endif
