#include "idfmodel.h"
#include <idf_parser.h>
#include <iostream>
#include <algorithm>

// C21: loose segments are assembled into the closed outlines they form
using std::string; using std::vector; using namespace idf;
namespace
{
struct Quiet { std::streambuf* a; std::ostringstream o; Quiet() { a = std::cerr.rdbuf( o.rdbuf() ); } ~Quiet() { std::cerr.rdbuf( a ); } };
struct Piece { IDF_POINT s, e; double ang = 0; bool circle = false; double lo = 0; g2::Curve k; int chain = 0, pos = 0; };
typedef vector<int> Chain;
IDF_POINT pt( double x, double y ) { IDF_POINT p; p.x = x; p.y = y; return p; }
double apart( const IDF_POINT& a, const IDF_POINT& b ) { return hypot( a.x - b.x, a.y - b.y ); }
// twice the signed area below the piece when it is walked forwards
double sweep( const Piece& p )
{
    double t = p.ang * M_PI / 180, a = p.s.x * p.e.y - p.e.x * p.s.y;
    if( t != 0 ) { double r = apart( p.s, p.e ) / 2 / sin( fabs( t ) / 2 ); a += r * r * ( t - sin( t ) ); }
    return a;
}

void assemble( Src& s, Ctx& c )
{
    Quiet quiet;
    vector<Piece> ps; vector<Chain> chains; vector<char> closed;
    int nl = s.range( 1, 4 ); bool nested = s.chance( 1, 3 ), noisy = s.flip();
    double noise = noisy ? s.pick( vector<double>{ 1e-7, 1e-5, 3e-4 } ) : 0;
    for( int i = 0; i < nl; ++i )
    {
        double r = nested ? 60.0 / ( 1 << ( 2 * i ) ) : s.range( 2, 40 ); g2::P o{ 0, 0 };
        if( !nested ) o = g2::P{ (g2::LD)( ( i % 2 ) * 100 + s.range( -5, 5 ) ), (g2::LD)( ( i / 2 ) * 100 + s.range( -5, 5 ) ) };
        Rows rw = genRows( s, "MM", o, r, s.flip() ); if( rw.size() < 2 ) continue;
        Chain ch; bool circ = rw.size() == 2 && fabs( rw[1].a ) == 360;
        for( size_t k = 1; k < rw.size(); ++k )
        {
            Piece p; p.s = pt( rw[k - 1].x, rw[k - 1].y ); p.e = pt( rw[k].x, rw[k].y ); p.ang = rw[k].a; p.circle = circ;
            p.chain = (int)chains.size(); p.pos = (int)ch.size(); ch.push_back( (int)ps.size() ); ps.push_back( p );
        }
        bool open = !circ && ch.size() >= 3 && s.chance( 1, 4 ); closed.push_back( !open );
        if( open ) { ps.pop_back(); ch.pop_back(); c.label( "open chain" ); while( ch.size() > 1 && s.chance( 1, 3 ) ) { ps.pop_back(); ch.pop_back(); } }
        chains.push_back( ch );
    }
    if( ps.empty() ) return;
    // pieces as they are given: some reversed, ends a little off, arcs also the way KiCad states them
    vector<IDF_SEGMENT*> seg( ps.size() ); string desc;
    for( size_t i = 0; i < ps.size(); ++i )
    {
        Piece& p = ps[i];
        if( noise > 0 && !p.circle && fabs( p.ang ) < 270 )
            for( IDF_POINT* q : { &p.s, &p.e } ) { q->x += noise * ( s.draw( 2001 ) / 1000.0 - 1 ); q->y += noise * ( s.draw( 2001 ) / 1000.0 - 1 ); }
        Rows one = { Row{ p.s.x, p.s.y, 0 }, Row{ p.e.x, p.e.y, p.ang } }; g2::Loop l = loopOf( one, 1 ); p.k = l[0];
        bool rev = !p.circle && s.chance( 1, 3 ), kicad = !p.circle && p.ang != 0 && s.flip();
        IDF_POINT a = rev ? p.e : p.s, b = rev ? p.s : p.e; double ang = rev ? -p.ang : p.ang;
        if( kicad )
        {
            IDF_POINT ctr = pt( (double)p.k.c.x, (double)p.k.c.y ); seg[i] = new IDF_SEGMENT( ctr, a, ang, true );
            REQ( apart( seg[i]->startPoint, a ) == 0 && apart( seg[i]->endPoint, b ) <= 1e-9 * ( 1 + (double)p.k.r ) + 1e-9, "an arc given by its centre ends at (" << seg[i]->endPoint.x << "," << seg[i]->endPoint.y << ") instead of (" << b.x << "," << b.y << ")" );
            REQ( apart( seg[i]->center, ctr ) == 0 && fabs( seg[i]->radius - (double)p.k.r ) <= 1e-9 * ( 1 + (double)p.k.r ) && seg[i]->angle == ang, "centre, radius or angle of an arc given by its centre" );
            if( rev ) p.s = seg[i]->endPoint; else p.e = seg[i]->endPoint;
        }
        else if( p.circle ) seg[i] = new IDF_SEGMENT( a, b, s.flip() ? 360 : -360, s.flip() );
        else if( p.ang == 0 && s.flip() ) seg[i] = new IDF_SEGMENT( a, b );
        else seg[i] = new IDF_SEGMENT( a, b, ang, p.ang == 0 && s.flip() );
        if( s.chance( 1, 4 ) ) { seg[i]->SwapEnds(); if( s.chance( 1, 3 ) ) seg[i]->SwapEnds(); }      // turned around before
        REQ( seg[i]->IsCircle() == p.circle, "IsCircle() of a segment is wrong" );
        g2::P lo, hi; p.k.bbox( lo, hi ); p.lo = (double)lo.x;
        desc += strf( "#%d loop %d.%d (%.9g,%.9g)-(%.9g,%.9g) %g%s%s\n", (int)i, p.chain, p.pos, p.s.x, p.s.y, p.e.x, p.e.y, p.ang, rev ? " reversed" : "", kicad ? " KiCad" : "" );
    }
    // corners which could be taken for another one are not judged
    for( size_t i = 0; i < ps.size(); ++i )
    {
        if( ps[i].circle ) continue;
        if( apart( ps[i].s, ps[i].e ) < 0.01 ) goto unfit;
        for( size_t j = 0; j < i; ++j )
        {
            if( ps[j].circle ) continue;
            bool same = ps[i].chain == ps[j].chain; int n = (int)chains[ps[i].chain].size();
            bool ij = same && ps[i].pos == ps[j].pos + 1, ji = same && closed[ps[i].chain] && ps[j].pos == 0 && ps[i].pos == n - 1;
            double se = apart( ps[i].s, ps[j].e ), es = apart( ps[i].e, ps[j].s );
            if( ( ij ? se > 9.5e-4 : se < 0.01 ) || ( ji ? es > 9.5e-4 : es < 0.01 ) ) goto unfit;
            bool both = ij && ji;
            if( !both && ( apart( ps[i].s, ps[j].s ) < 0.01 || apart( ps[i].e, ps[j].e ) < 0.01 ) ) goto unfit;
        }
    }
    if( 0 ) { unfit: for( IDF_SEGMENT* g : seg ) delete g; c.label( "ambiguous" ); return; }
    vector<int> order; for( size_t i = 0; i < ps.size(); ++i ) order.push_back( (int)i );
    for( size_t i = order.size(); i > 1; --i ) std::swap( order[i - 1], order[s.draw( (uint32_t)i )] );
    std::list<IDF_SEGMENT*> lines; for( int i : order ) lines.push_back( seg[i] );
    c.desc = desc; c.nontrivial = ps.size() >= 3;
    IDF_OUTLINE shared; int made = 0;
    auto num = [&]( IDF_SEGMENT* p ) { for( size_t i = 0; i < seg.size(); ++i ) if( seg[i] == p ) return (int)i; return -1; };
    auto state = [&]( int i ) { IDF_SEGMENT* g = seg[i]; return apart( g->startPoint, ps[i].s ) == 0 && apart( g->endPoint, ps[i].e ) == 0 ? 1 : apart( g->startPoint, ps[i].e ) == 0 && apart( g->endPoint, ps[i].s ) == 0 ? -1 : 0; };
    vector<int> dir( seg.size() ); for( size_t i = 0; i < seg.size(); ++i ) { dir[i] = ps[i].circle ? 1 : state( (int)i ); REQ( dir[i], "a new segment has other ends than it was given" ); }
    while( !lines.empty() )
    {
        REQ( made++ < 100, "harness: endless" );
        vector<int> before; for( IDF_SEGMENT* p : lines ) before.push_back( num( p ) );
        double lo = 1e300; for( int i : before ) lo = std::min( lo, ps[i].lo );
        IDF_OUTLINE own; IDF_OUTLINE& o = s.flip() ? shared : own;      // an outline which held something else is emptied first
        if( &o == &shared ) for( size_t i = 0; i < seg.size(); ++i ) if( std::find( before.begin(), before.end(), (int)i ) == before.end() ) seg[i] = NULL;
        IDF3::GetOutline( lines, o );
        vector<int> left; for( IDF_SEGMENT* p : lines ) { int n = num( p ); REQ( n >= 0, "the remaining list holds an unknown segment" ); left.push_back( n ); }
        vector<int> used; for( int i : before ) if( std::find( left.begin(), left.end(), i ) == left.end() ) used.push_back( i );
        { vector<int> w; for( int i : before ) if( std::find( used.begin(), used.end(), i ) == used.end() ) w.push_back( i ); REQ( w == left, "the remaining segments are in another order" ); }
        auto tol = [&]( int i ) { return 1e-6 * ( 1 + (double)ps[i].k.r ); };
        std::ostringstream what; what << "outline " << made << ": ";
        if( o.empty() )
        {
            // a straight line at whose end nothing begins makes no outline
            REQ( used.size() == 1, what.str() << "nothing was made of " << used.size() << " segments" );
            int i = used[0]; Chain& ch = chains[ps[i].chain]; int at = (int)( std::find( ch.begin(), ch.end(), i ) - ch.begin() ) + dir[i];
            REQ( ( at < 0 || at >= (int)ch.size() ) && !ps[i].circle && ps[i].ang == 0 && !closed[ps[i].chain], what.str() << "segment #" << i << " was dropped" );
            REQ( ps[i].lo <= lo + tol( i ), what.str() << "not the leftmost segment was taken" );
            REQ( !o.IsCircle() && !o.IsCCW() && o.size() == 0, what.str() << "an empty outline claims to be something" );
            seg[i] = NULL; ch.erase( std::find( ch.begin(), ch.end(), i ) ); c.label( "line dropped" ); continue;
        }
        int f = num( *o.begin() ); REQ( f >= 0 && std::find( used.begin(), used.end(), f ) != used.end(), what.str() << "the first segment was not in the list" );
        REQ( ps[f].lo <= lo + tol( f ), what.str() << "starts with #" << f << " whose leftmost point is " << ps[f].lo << ", but there is one at " << lo );
        Chain& ch = chains[ps[f].chain]; bool cl = closed[ps[f].chain];
        // the walk which starts at f in the direction it has
        int at = (int)( std::find( ch.begin(), ch.end(), f ) - ch.begin() ), n = (int)ch.size(), d = dir[f]; vector<int> want;
        for( int q = at, k = 0; k < n; ++k, q += d ) { if( cl ) q = ( q + n ) % n; else if( q < 0 || q >= n ) break; want.push_back( ch[q] ); }
        vector<int> got; IDF_SEGMENT* extra = NULL; IDF_POINT end = ( *o.begin() )->startPoint; double area = 0, len = 0;
        for( auto it = o.begin(); it != o.end(); ++it )
        {
            REQ( !extra, what.str() << "a segment follows the closing line" );
            int i = num( *it ); REQ( apart( ( *it )->startPoint, end ) <= 1e-3, what.str() << "is not connected: a segment starts at (" << ( *it )->startPoint.x << "," << ( *it )->startPoint.y << ") after (" << end.x << "," << end.y << ")" );
            end = ( *it )->endPoint; if( i < 0 ) { extra = *it; Piece p; p.s = extra->startPoint; p.e = extra->endPoint; area += sweep( p ) / 2; continue; }
            got.push_back( i );
            if( ps[i].circle ) { REQ( o.size() == 1 && ( *it )->IsCircle() && apart( ( *it )->center, ps[i].s ) < 1e-9 && fabs( ( *it )->radius - apart( ps[i].s, ps[i].e ) ) < 1e-9, what.str() << "the circle was changed" ); continue; }
            int now = state( i ); REQ( now, what.str() << "the ends of #" << i << " were moved" );
            REQ( now == d, what.str() << "#" << i << " is walked backwards" );
            REQ( fabs( ( *it )->angle - d * ps[i].ang ) < 1e-9, what.str() << "#" << i << " has angle " << ( *it )->angle );
            if( ps[i].ang != 0 )
            {
                double R = (double)ps[i].k.r, a = ( *it )->offsetAngle * M_PI / 180;
                REQ( hypot( ( *it )->center.x - (double)ps[i].k.c.x, ( *it )->center.y - (double)ps[i].k.c.y ) <= 1e-6 * ( 1 + R ) && fabs( ( *it )->radius - R ) <= 1e-6 * ( 1 + R ), what.str() << "centre or radius of #" << i << " was changed" );
                REQ( apart( pt( ( *it )->center.x + R * cos( a ), ( *it )->center.y + R * sin( a ) ), ( *it )->startPoint ) <= 4e-6 * ( 1 + R ), what.str() << "the start of #" << i << " is not at its angle" );
            }
            REQ( fabs( ( *it )->GetMinX() - ps[i].lo ) <= tol( i ), what.str() << "the leftmost point of #" << i << " is said to be at " << ( *it )->GetMinX() << " instead of " << ps[i].lo );
            area += d * sweep( ps[i] ) / 2; len += fabs( ps[i].ang ) > 0 ? (double)ps[i].k.r * fabs( ps[i].ang ) * M_PI / 180 : apart( ps[i].s, ps[i].e );
        }
        string ws, gs; for( int i : want ) ws += strf( " %d", i ); for( int i : got ) gs += strf( " %d", i );
        REQ( want == got, what.str() << "made of" << gs << " instead of" << ws );
        std::sort( used.begin(), used.end() ); std::sort( got.begin(), got.end() ); REQ( used == got, what.str() << "other segments are missing from the list than are in the outline" );
        bool circ = ps[f].circle;
        if( circ ) REQ( o.IsCircle() && o.IsCCW(), what.str() << "a circle is not recognized" );
        else
        {
            REQ( apart( end, ( *o.begin() )->startPoint ) <= 1e-3, what.str() << "is not closed" );
            REQ( !o.IsCircle(), what.str() << "claims to be a circle" );
            REQ( ( extra != NULL ) == !cl, what.str() << ( extra ? "a closed loop got a closing line" : "an open chain got no closing line" ) );
            if( extra ) REQ( extra->angle == 0 && extra->radius == 0, what.str() << "the closing line is no line" );
            if( fabs( area ) > 2e-3 * len + 1e-3 ) REQ( o.IsCCW() == ( area > 0 ), what.str() << "IsCCW is " << o.IsCCW() << " for an area of " << area );
            // a closed loop takes nothing which does not begin where it ends
            IDF_SEGMENT* bad = s.flip() ? new IDF_SEGMENT( pt( end.x, end.y ), pt( end.x + 1, end.y ), 360, false ) : new IDF_SEGMENT( pt( end.x + 0.01, end.y ), pt( end.x + 1, end.y ) );
            size_t was = o.size(); bool r = o.push( bad ); if( !r ) delete bad;
            REQ( !r && o.size() == was, what.str() << "a circle or a line from elsewhere was added" );
        }
        if( circ )
        {
            IDF_SEGMENT* bad = new IDF_SEGMENT( pt( ps[f].e.x, ps[f].e.y ), pt( 1, 2 ) ); bool r = o.push( bad ); if( !r ) delete bad;
            REQ( !r && o.size() == 1, what.str() << "a line was added to a circle" );
        }
        // what is left of an open chain
        if( !cl ) { Chain rest; for( int i : ch ) if( std::find( want.begin(), want.end(), i ) == want.end() ) rest.push_back( i ); ch = rest; c.label( "closed by a line" ); }
        else ch.clear();
        c.label( circ ? "circle" : cl ? "loop" : "chain" );
        if( &o == &own ) for( int i : want ) seg[i] = NULL;     // destroyed with the outline
    }
    // nothing can be made of nothing
    IDF3::GetOutline( lines, shared );
    REQ( lines.empty() && shared.empty() && !shared.IsCircle() && !shared.IsCCW(), "an outline was made of an empty list" );
}
PROPERTY( "C21", "assemble", "three or more segments", 60000, 2000000, assemble );
}
