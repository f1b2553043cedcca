#ifndef GEN2D_H
#define GEN2D_H
#include "pbt.h"
#include "geo2d.h"
namespace g2
{
inline LD coord( Src& s, LD lim )
{
    switch( s.weighted( { 3, 2, 2 } ) )
    {
    case 0: return s.range( -(int)lim, (int)lim );
    case 1: return s.range( -(int)( lim * 20 ), (int)( lim * 20 ) ) * 0.05;
    default: return (double)( ( s.draw( 2000001 ) / 1e6L - 1 ) * lim );
    }
}
inline P point( Src& s, LD lim ) { LD x = coord( s, lim ); return P{ x, coord( s, lim ) }; }
inline LD radius( Src& s, LD lim ) { return s.flip() ? (LD)s.range( 1, (int)lim ) : (LD)(double)( 0.02L + s.draw( 1000001 ) / 1e6L * lim ); }
inline LD angle( Src& s )
{
    if( s.chance( 2, 3 ) ) return ( s.draw( 2000000 ) / 1e6L - 1 ) * PI;
    return ( s.range( -12, 12 ) ) * PI / 12;
}
inline P onCircle( P c, LD r, LD a ) { return P{ (double)( c.x + r * cosl( a ) ), (double)( c.y + r * sinl( a ) ) }; }
inline Curve genArc( Src& s, P c, LD r )
{
    LD a = angle( s ), w = s.flip() ? s.range( 1, 23 ) * PI / 12 : 0.02L + s.draw( 1000001 ) / 1e6L * ( 2 * PI - 0.04L );
    bool cw = s.flip(); if( cw ) w = -w;
    P st = onCircle( c, r, a ), en = onCircle( c, r, a + w );
    // exact points at the quadrants
    return arc( c, st, en, cw );
}
inline Curve genCurve( Src& s, LD lim, int kinds = 3 )
{
    int t = s.range( 0, kinds - 1 );
    P a = point( s, lim );
    if( t == 0 )
    {
        P b = point( s, lim ); if( s.chance( 1, 3 ) ) b.x = a.x; else if( s.chance( 1, 3 ) ) b.y = a.y;
        // almost parallel to an axis, as after a rotation by a quarter turn
        if( s.chance( 1, 8 ) ) { double e = ldexp( 1.0, -s.range( 24, 56 ) ) * ( s.flip() ? 1 : -1 ); if( s.flip() ) b.x = (double)( a.x + e ); else b.y = (double)( a.y + e ); }
        if( dist( a, b ) < 1e-4 ) b.x = (double)( b.x + 1 ), b.y = a.y;
        return line( a, b );
    }
    LD r = radius( s, lim );
    if( t == 1 ) return genArc( s, a, r );
    return circle( a, r );
}
inline std::string show( const Curve& k )
{
    if( k.t == LINE ) return strf( "line (%.17g,%.17g)-(%.17g,%.17g)", (double)k.s.x, (double)k.s.y, (double)k.e.x, (double)k.e.y );
    if( k.t == CIRCLE ) return strf( "circle c(%.17g,%.17g) r %.17g", (double)k.c.x, (double)k.c.y, (double)k.r );
    return strf( "arc c(%.17g,%.17g) s(%.17g,%.17g) e(%.17g,%.17g) r %.17g sweep %.12g", (double)k.c.x, (double)k.c.y, (double)k.s.x, (double)k.s.y, (double)k.e.x, (double)k.e.y, (double)k.r, (double)k.sw );
}
}
#endif
