// Independent long-double planar geometry used as the oracle for segments and outlines.
#ifndef GEO2D_H
#define GEO2D_H
#include <cmath>
#include <vector>
#include <algorithm>
#include <geom/mcad_elements.h>
#include <geom/mcad_segment.h>

namespace g2
{
typedef long double LD;
static const LD PI = 3.14159265358979323846264338327950288L;
struct P { LD x, y; };
inline LD dist( P a, P b ) { return hypotl( a.x - b.x, a.y - b.y ); }
inline P mk( const MCAD_POINT& p ) { return P{ p.x, p.y }; }
inline MCAD_POINT mp( P p ) { return MCAD_POINT( (double)p.x, (double)p.y, 0.0 ); }

enum T { LINE, ARC, CIRCLE };
struct Curve
{
    T t; P s, e, c; LD r, a0, sw;       // arcs: start angle and signed sweep (>0: counterclockwise)
    P at( LD u ) const
    {
        if( t == LINE ) return P{ s.x + ( e.x - s.x ) * u, s.y + ( e.y - s.y ) * u };
        return P{ c.x + r * cosl( a0 + sw * u ), c.y + r * sinl( a0 + sw * u ) };
    }
    LD length() const { return t == LINE ? dist( s, e ) : r * fabsl( sw ); }
    // fraction of the way round (0..) of an angle measured in the sense of the arc, in radians
    LD along( P p ) const
    {
        LD a = atan2l( p.y - c.y, p.x - c.x ) - a0; if( sw < 0 ) a = -a;
        a = fmodl( a, 2 * PI ); if( a < 0 ) a += 2 * PI; return a;
    }
    LD distTo( P p ) const
    {
        if( t == LINE )
        {
            LD l2 = ( e.x - s.x ) * ( e.x - s.x ) + ( e.y - s.y ) * ( e.y - s.y );
            LD u = l2 == 0 ? 0 : ( ( p.x - s.x ) * ( e.x - s.x ) + ( p.y - s.y ) * ( e.y - s.y ) ) / l2;
            u = std::min( (LD)1, std::max( (LD)0, u ) ); return dist( p, at( u ) );
        }
        LD d = fabsl( dist( p, c ) - r );
        if( t == CIRCLE || along( p ) <= fabsl( sw ) ) return d;
        return std::min( dist( p, s ), dist( p, e ) );
    }
    void bbox( P& lo, P& hi ) const
    {
        lo = P{ std::min( s.x, e.x ), std::min( s.y, e.y ) }; hi = P{ std::max( s.x, e.x ), std::max( s.y, e.y ) };
        if( t == LINE ) return;
        for( int q = 0; q < 4; ++q )
        {
            P m{ c.x + ( q == 0 ? r : q == 2 ? -r : 0 ), c.y + ( q == 1 ? r : q == 3 ? -r : 0 ) };
            if( t == ARC && along( m ) > fabsl( sw ) ) continue;
            lo.x = std::min( lo.x, m.x ); lo.y = std::min( lo.y, m.y ); hi.x = std::max( hi.x, m.x ); hi.y = std::max( hi.y, m.y );
        }
    }
    // contribution to the enclosed area (Green), relative to the origin o
    LD area( P o ) const
    {
        LD a = ( ( s.x - o.x ) * ( e.y - o.y ) - ( e.x - o.x ) * ( s.y - o.y ) ) / 2;
        if( t == LINE ) return a;
        return a + r * r / 2 * ( sw - sinl( sw ) );
    }
};
inline Curve line( P s, P e ) { Curve k; k.t = LINE; k.s = s; k.e = e; k.c = P{ 0, 0 }; k.r = 0; k.a0 = k.sw = 0; return k; }
inline Curve circle( P c, LD r ) { Curve k; k.t = CIRCLE; k.c = c; k.r = r; k.s = k.e = P{ c.x + r, c.y }; k.a0 = 0; k.sw = 2 * PI; return k; }
inline Curve arc( P c, P s, P e, bool cw )
{
    Curve k; k.t = ARC; k.c = c; k.s = s; k.e = e; k.r = ( dist( c, s ) + dist( c, e ) ) / 2;
    k.a0 = atan2l( s.y - c.y, s.x - c.x ); k.sw = atan2l( e.y - c.y, e.x - c.x ) - k.a0;
    if( cw ) { while( k.sw >= 0 ) k.sw -= 2 * PI; while( k.sw < -2 * PI ) k.sw += 2 * PI; }
    else { while( k.sw <= 0 ) k.sw += 2 * PI; while( k.sw > 2 * PI ) k.sw -= 2 * PI; }
    return k;
}
// the curve a segment describes, from its public accessors
inline Curve of( MCAD_SEGMENT& g )
{
    if( g.GetSegType() == MCAD_SEGTYPE_LINE ) return line( mk( g.GetMStart() ), mk( g.GetMEnd() ) );
    if( g.GetSegType() == MCAD_SEGTYPE_CIRCLE ) return circle( mk( g.GetCenter() ), g.GetRadius() );
    return arc( mk( g.GetCenter() ), mk( g.GetMStart() ), mk( g.GetMEnd() ), g.IsCW() );
}
inline bool apply( const Curve& k, MCAD_SEGMENT& g )
{
    if( k.t == LINE ) return g.SetParams( mp( k.s ), mp( k.e ) );
    if( k.t == CIRCLE ) return g.SetParams( mp( k.c ), mp( k.s ), mp( k.s ), false );
    return g.SetParams( mp( k.c ), mp( k.s ), mp( k.e ), k.sw < 0 );
}

// how a point of the supporting line or circle relates to the curve
enum W { OUT, IN, END, AMB };
inline W where( const Curve& k, P p, LD zero, LD margin )
{
    if( k.t == CIRCLE ) return IN;
    LD de = std::min( dist( p, k.s ), dist( p, k.e ) );
    if( de <= zero ) return END;
    if( de < margin ) return AMB;
    return k.distTo( p ) < margin / 4 ? IN : OUT;
}
struct X { P p; LD sn; W a, b; };       // meeting point, sine of the angle between the curves

// meeting points of the supporting lines/circles; false when they (nearly) touch or coincide
inline bool meet( const Curve& a, const Curve& b, std::vector<X>& out, LD margin, LD& gap )
{
    out.clear(); gap = 1;
    if( a.t == LINE && b.t == LINE )
    {
        LD ax = a.e.x - a.s.x, ay = a.e.y - a.s.y, bx = b.e.x - b.s.x, by = b.e.y - b.s.y;
        LD den = ax * by - ay * bx, sn = fabsl( den ) / ( a.length() * b.length() );
        if( sn < 1e-3L ) { gap = 0; return false; }
        LD u = ( ( b.s.x - a.s.x ) * by - ( b.s.y - a.s.y ) * bx ) / den;
        out.push_back( X{ a.at( u ), sn, OUT, OUT } ); return true;
    }
    if( a.t == LINE || b.t == LINE )
    {
        const Curve& l = a.t == LINE ? a : b; const Curve& k = a.t == LINE ? b : a;
        LD len = l.length(), ux = ( l.e.x - l.s.x ) / len, uy = ( l.e.y - l.s.y ) / len;
        LD h = ( k.c.x - l.s.x ) * uy - ( k.c.y - l.s.y ) * ux, m = ( k.c.x - l.s.x ) * ux + ( k.c.y - l.s.y ) * uy;
        gap = fabsl( h ) - k.r;
        if( fabsl( gap ) < margin ) return false;
        if( gap > 0 ) return true;
        LD w = sqrtl( k.r * k.r - h * h );
        for( int i = -1; i < 2; i += 2 ) out.push_back( X{ P{ l.s.x + ux * ( m + i * w ), l.s.y + uy * ( m + i * w ) }, w / k.r, OUT, OUT } );
        return true;
    }
    LD d = dist( a.c, b.c );
    gap = std::max( d - a.r - b.r, fabsl( a.r - b.r ) - d );
    if( fabsl( gap ) < margin ) return false;
    if( gap > 0 ) return true;
    LD x = ( d * d + a.r * a.r - b.r * b.r ) / ( 2 * d ), hh = a.r * a.r - x * x;
    if( hh <= 0 ) { gap = 0; return false; }
    LD h = sqrtl( hh ), ux = ( b.c.x - a.c.x ) / d, uy = ( b.c.y - a.c.y ) / d, sn = h * d / ( a.r * b.r );
    for( int i = -1; i < 2; i += 2 ) out.push_back( X{ P{ a.c.x + ux * x - i * uy * h, a.c.y + uy * x + i * ux * h }, sn, OUT, OUT } );
    return true;
}
} // namespace g2
#endif
