#include "pcbsolid.h"
using namespace g2;
typedef sol::V V;
static P flat( V v ) { return P{ v.x, v.y }; }
Wall wallOf( const sol::Face& f, LD top, LD bot, LD tol )
{
    Wall w; w.f = &f; int nt = 0, nb = 0, nv = 0; REQ( f.inner.empty(), "a wall has holes" );
    for( auto& k : f.outer.c )
    {
        bool t = true, b = true; V p0 = k.at( 0 ); bool v = true;
        for( int i = 0; i <= 4; ++i ) { V p = k.at( i / 4.0L ); t = t && fabsl( p.z - top ) < tol; b = b && fabsl( p.z - bot ) < tol; v = v && hypotl( p.x - p0.x, p.y - p0.y ) < tol; }
        if( t ) { w.top = k; ++nt; } else if( b ) { w.bot = k; ++nb; } else { REQ( v, "an edge of a wall is neither level nor vertical" ); ++nv; }
    }
    REQ( nt == 1 && nb == 1 && nv == 2, "a wall has " << nt << " edges at the top, " << nb << " at the bottom and " << nv << " vertical ones" );
    return w;
}

void checkSolid( const std::vector<sol::Face>& F, const std::vector<Loop>& R, LD top, LD bot, Ctx& c )
{
    P lo, hi; bbox( R[0], lo, hi );
    LD tol = 2e-6L + 2e-8L * std::max( hi.x - lo.x, hi.y - lo.y ); LD total = 0; for( auto& l : R ) for( auto& k : l ) total += k.length();
    auto onR = [&]( P p, int* which = NULL ) { LD b = 1e30L; for( size_t i = 0; i < R.size(); ++i ) { LD x = distTo( R[i], p ); if( x < b ) { b = x; if( which ) *which = i; } } return b; };
    for( auto& l : R ) for( auto& k : l ) if( k.t != LINE ) tol = std::max( tol, 2e-6L + 4e-8L * k.r );      // ends of arcs next to an axis are moved to it
    std::vector<Wall> walls; int tops = 0, bots = 0;
    for( auto& f : F )
    {
        sol::checkFace( f, tol );
        LD um = ( f.s.u0 + f.s.u1 ) / 2, vm = ( f.s.v0 + f.s.v1 ) / 2; V n = f.s.normal( um, vm ); bool flatFace = fabsl( n.z ) > 0.5L * sol::len( n );
        if( flatFace )
        {
            LD z = f.s.at( um, vm ).z; bool t = fabsl( z - top ) < tol; REQ( t || fabsl( z - bot ) < tol, "a plane is at the height " << (double)z );
            ++( t ? tops : bots );
            for( int i = 0; i < 5; ++i ) { V q = f.s.at( i & 1 ? f.s.u1 : f.s.u0, i & 2 ? f.s.v1 : f.s.v0 ); REQ( fabsl( q.z - ( t ? top : bot ) ) < tol, "a plane is not level" ); }
            REQ( ( n.z > 0 ) == t, ( t ? "top" : "bottom" ) << " plane faces the wrong way" );
            REQ( f.outerGiven, "the plane is not trimmed" ); REQ( f.inner.size() + 1 == R.size(), "the plane has " << f.inner.size() << " holes instead of " << R.size() - 1 );
            // its boundaries are those of the region, each once
            LD sum = 0; std::vector<int> seen( R.size(), 0 );
            for( int i = -1; i < (int)f.inner.size(); ++i )
            {
                const sol::Loop& l = i < 0 ? f.outer : f.inner[i]; int w = -1;
                for( auto& k : l.c ) { sum += k.length(); for( int j = 0; j <= 6; ++j ) { V q = k.at( j / 6.0L ); int u; LD e = onR( flat( q ), &u ); REQ( e < tol && fabsl( q.z - z ) < tol, "a boundary curve of the plane leaves the outline by " << (double)e << " at (" << (double)q.x << "," << (double)q.y << "," << (double)q.z << "), curve " << k.ent << " kind " << k.k << " from (" << (double)k.at( 0 ).x << "," << (double)k.at( 0 ).y << ") to (" << (double)k.at( 1 ).x << "," << (double)k.at( 1 ).y << ")" ); if( w < 0 ) w = u; REQ( u == w, "a boundary of the plane consists of parts of several outlines" ); } }
                REQ( ( i < 0 ) == ( w == 0 ), "outer and inner boundaries are mixed up" ); ++seen[w];
            }
            for( int x : seen ) REQ( x == 1, "an outline occurs " << x << " times among the boundaries of a plane" );
            REQ( fabsl( sum - total ) < tol * 10, "the boundaries of the plane are " << (double)sum << " long instead of " << (double)total );
            continue;
        }
        Wall w = wallOf( f, top, bot, tol ); walls.push_back( w );
        int which = -1;
        for( int i = 0; i <= 4; ++i ) for( auto* k : { &w.top, &w.bot } ) { P q = flat( k->at( i / 4.0L ) ); LD e = onR( q ); REQ( e < tol, "a wall leaves the outline by " << (double)e ); }
        onR( flat( w.top.at( 0.5L ) ), &which );
        // the middle of the trimmed area lies on the surface between the edges
        P mid = flat( w.top.at( 0.5L ) ); V b0 = f.outer.b[0].at( 0.5L ), b1 = f.outer.b[f.outer.b.size() / 2].at( 0.5L ); LD uu = ( b0.x + b1.x ) / 2, vv = ( b0.y + b1.y ) / 2;
        V q = f.s.at( uu, vv ); REQ( hypotl( q.x - mid.x, q.y - mid.y ) < tol * 10 && q.z > bot && q.z < top, "the trimmed area of a wall is not between its edges: middle at " << (double)q.x << "," << (double)q.y << "," << (double)q.z );
        // it faces away from the material
        V nn = f.s.normal( uu, vv ); nn = ( 1 / sol::len( nn ) ) * nn; REQ( fabsl( nn.z ) < 1e-6L, "a wall is not vertical" );
        // in a narrow cusp the probe must not reach the neighbouring wall
        bool ok = false, bad = false; LD other = 1e30L, own = 1e30L;
        for( auto& l : R ) for( auto& k : l ) { LD x = k.distTo( mid ); if( x < own ) std::swap( x, own ); other = std::min( other, x ); }
        LD ee = std::min( 0.004L * std::min( (LD)1, w.top.length() ), other / 3 );
        if( ee > 5e-5L )
        {
            P po{ mid.x + ee * nn.x, mid.y + ee * nn.y }, pi{ mid.x - ee * nn.x, mid.y - ee * nn.y }; int io = inside( R[which], po ), ii = inside( R[which], pi );
            if( io >= 0 && ii >= 0 ) ( io == ( which ? 1 : 0 ) && ii == ( which ? 0 : 1 ) ? ok : bad ) = true;
        }
        if( bad && !ok ) FAILMSG( "a wall of " << ( which ? "a hole" : "the outline" ) << " faces the wrong way at (" << (double)mid.x << "," << (double)mid.y << ") (surface type " << f.s.type << ", length " << (double)w.top.length() << ", normal " << (double)nn.x << "," << (double)nn.y << ", probe " << (double)ee << ")" );
        if( !ok ) c.label( "orientation not decided" );
    }
    REQ( tops == 1 && bots == 1, tops << " top and " << bots << " bottom planes" );
    LD st = 0, sb = 0; for( auto& w : walls ) { st += w.top.length(); sb += w.bot.length(); }
    REQ( fabsl( st - total ) < tol * 10 && fabsl( sb - total ) < tol * 10, "the walls are " << (double)st << "/" << (double)sb << " long at the top/bottom, the outlines " << (double)total );
    for( auto& l : R ) for( auto& k : l ) for( int i = 0; i <= 4; ++i )
    {
        P p = k.at( ( i + 0.37L ) / 5 ); LD b = 1e30L; for( auto& w : walls ) b = std::min( b, w.top.distTo( sol::v3( p.x, p.y, top ) ) );
        REQ( b < tol, "no wall at a point of the outline (" << (double)p.x << "," << (double)p.y << ")" );
    }
    // closed: every edge of every face is an edge of another face as well
    for( auto& f : F ) { std::vector<const sol::Loop*> ls{ &f.outer }; for( auto& l : f.inner ) ls.push_back( &l ); for( auto* l : ls ) for( auto& k : l->c ) for( int i = 1; i < 4; ++i )
    {
        V p = k.at( i / 4.0L ); LD b = 1e30L;
        for( auto& g : F ) if( &g != &f ) { for( auto& q : g.outer.c ) b = std::min( b, q.distTo( p ) ); for( auto& q : g.inner ) for( auto& z : q.c ) b = std::min( b, z.distTo( p ) ); if( b < tol ) break; }
        REQ( b < tol, "the faces leave a gap of " << (double)b << " at an edge" );
    } }
}
