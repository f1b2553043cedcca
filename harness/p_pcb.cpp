#include "model.h"
#include "region2d.h"
#include "pcbsolid.h"
#include <geom/iges_geom_pcb.h>
#include <geom/geom_wall.h>
#include <geom/geom_cylinder.h>
#include <memory>

// C15: the faces made for a board, a wall or a cylinder are exactly those of the solid
using namespace g2;
namespace
{
typedef sol::V V;
P flat( V v ) { return P{ v.x, v.y }; }
bool buildable( const Loop& l )
{
    if( l.empty() ) return false;
    for( auto& k : l ) if( k.t == ARC && fabsl( dist( k.c, k.s ) - dist( k.c, k.e ) ) > 5e-9L ) return false;
    return true;
}
void fill( MCAD_OUTLINE& o, const Loop& l )
{
    bool err = false;
    for( auto& k : l ) { MCAD_SEGMENT* g = new MCAD_SEGMENT; REQ( apply( k, *g ), "valid segment refused" ); REQ( o.AddSegment( g, err ), "segment refused" ); }
}
// an angle on or next to an axis: there arcs are divided
LD nearAxis( Src& s ) { LD a = s.range( -2, 2 ) * PI / 2; if( s.flip() ) { LD e = powl( 10, -s.range( 5, 17 ) ) * s.range( 1, 9 ); a += s.flip() ? e : -e; } return a; }
// part of a disc bounded by a chord or by two lines to the centre
Loop sector( Src& s, P c, LD r )
{
    LD a = s.chance( 2, 3 ) ? nearAxis( s ) : angle( s ), b = s.chance( 2, 3 ) ? nearAxis( s ) : angle( s ); while( b < a + 0.05L ) b += 2 * PI; while( b > a + 2 * PI ) b -= 2 * PI;
    if( b < a + 0.05L || b > a + 2 * PI - 0.05L ) return Loop();
    P p = onCircle( c, r, a ), q = onCircle( c, r, b ); Loop l{ arc( c, p, q, false ) };
    if( fabsl( b - a - PI ) < 0.3L || s.flip() ) l.push_back( line( q, p ) ); else { l.push_back( line( q, c ) ); l.push_back( line( c, p ) ); }
    return simple( l ) ? l : Loop();
}
Loop shape( Src& s, P c, LD r, int kind = -1 ) { return kind < 0 && s.chance( 1, 5 ) ? sector( s, c, r ) : genLoop( s, c, r, kind ); }
Loop read( MCAD_OUTLINE& o ) { Loop l; for( auto* g : *o.GetSegments() ) l.push_back( of( *g ) ); return l; }
// all faces of a file which only contains them
std::vector<sol::Face> facesOf( IGES& m, Ctx& c, PDoc& d )
{
    std::string f = c.path( "f.igs" ); m.globalData.minResolution = 1e-9;
    REQ( m.Write( f.c_str(), true ), "the model cannot be written" );
    std::string t = readFile( f ); parseIges( t, d ); std::string pr; for( auto& p : d.problems ) pr += p + "\n";
    REQ( d.problems.empty(), "the written file is malformed:\n" << pr );
    return sol::faces( d );
}
void board( Src& s, Ctx& c )
{
    LD r = s.flip() ? 10 : 120; P at = s.flip() ? P{ 0, 0 } : point( s, r );
    Loop base = shape( s, at, r ); if( !buildable( base ) ) return;
    if( s.flip() && base.size() > 1 ) base = reversed( base );
    IGES_GEOM_PCB o; fill( o, base ); c.desc = "outline\n" + show( base );
    int nops = s.weighted( { 3, 2, 1 } );
    for( int i = 0; i < nops; ++i )
    {
        Loop cur = read( o ); const Curve& k = s.pick( cur ); P pos = k.at( ( 1 + s.draw( 99 ) ) / 100.0L ); pos.x = (double)pos.x; pos.y = (double)pos.y;
        Loop b = genLoop( s, pos, r * ( 0.1L + s.draw( 60 ) / 120.0L ) ); if( !buildable( b ) || crossings( cur, b ) != 2 ) continue;
        bool sub = s.flip(), err = false; c.desc += std::string( sub ? "subtract\n" : "add\n" ) + show( b );
        std::unique_ptr<MCAD_OUTLINE> q( new MCAD_OUTLINE ); fill( *q, b );
        if( sub ? o.SubOutline( q.get(), err ) : o.AddOutline( q.get(), err ) ) { q.release(); c.label( sub ? "after a subtraction" : "after an addition" ); }
    }
    std::vector<Loop> R{ read( o ) };
    P lo, hi; bbox( R[0], lo, hi );
    int nc = s.range( 0, 8 ), cuts = 0, holes = 0;
    for( int i = 0; i < nc; ++i )
    {
        P p{ (double)( lo.x + ( hi.x - lo.x ) * s.draw( 1001 ) / 1000.0L ), (double)( lo.y + ( hi.y - lo.y ) * s.draw( 1001 ) / 1000.0L ) };
        bool hole = s.flip(); Loop b = shape( s, p, r * ( 0.05L + s.draw( 50 ) / 200.0L ), hole ? 1 : -1 ); if( !buildable( b ) ) continue;
        bool fits = true;
        for( size_t j = 0; j < R.size() && fits; ++j )
        {
            fits = crossings( R[j], b ) == 0 && inside( R[j], b[0].s ) == ( j == 0 ? 1 : 0 );
            if( j ) fits = fits && inside( b, R[j][0].s ) == 0;
        }
        if( !fits ) continue;
        bool err = false;
        if( hole ) { MCAD_SEGMENT* g = new MCAD_SEGMENT; apply( b[0], *g ); REQ( o.AddCutout( g, false, err ), "drill hole refused" ); ++holes; c.desc += "hole\n" + show( b ); }
        else { bool cw = s.flip() && b.size() > 1; MCAD_OUTLINE* q = new MCAD_OUTLINE; fill( *q, cw ? reversed( b ) : b ); REQ( o.AddCutout( q, false, err ), "cutout refused" ); ++cuts; c.desc += "cutout\n" + show( cw ? reversed( b ) : b ); }
        R.push_back( b );
    }
    LD h = s.pick( std::vector<LD>{ 1.6L, 0.8L, 25, 0.25L } ), bot = s.flip() ? -h / 2 : coord( s, 50 ), top = (double)( bot + h ); bot = (double)bot;
    c.desc += strf( "bottom %.17g top %.17g\n", (double)bot, (double)top );
    IGES m; m.globalData.unitsFlag = UNIT_MM; std::vector<IGES_ENTITY_144*> sf; bool err = false;
    REQ( o.GetVerticalSurface( &m, err, sf, (double)top, (double)bot ) && !err, "no vertical surfaces for a valid outline" );
    size_t nw = sf.size();
    REQ( o.GetTrimmedPlane( &m, err, sf, (double)top, false ) && !err && sf.size() == nw + 1, "no top plane for a valid outline" );
    REQ( o.GetTrimmedPlane( &m, err, sf, (double)bot, true ) && !err && sf.size() == nw + 2, "no bottom plane for a valid outline" );
    // making the faces must not change the outline
    Loop now = read( o ); REQ( now.size() == R[0].size() && fabsl( area( now ) - area( R[0] ) ) < 1e-9L * ( 1 + area( now ) ), "the outline changed while its faces were made" );
    PDoc d; std::vector<sol::Face> F = facesOf( m, c, d );
    REQ( F.size() == nw + 2, F.size() << " faces in the file instead of " << nw + 2 );
    checkSolid( F, R, top, bot, c );
    c.nontrivial = true; c.label( strf( "%d cutouts", cuts ) ); c.label( strf( "%d holes", holes ) );
    for( auto& l : R ) for( auto& k : l ) c.label( k.t == LINE ? "line" : k.t == CIRCLE ? "circle" : k.sw < 0 ? "clockwise arc" : fabsl( k.sw ) > PI ? "arc > 180" : "arc" );
}

void cylinder( Src& s, Ctx& c )
{
    LD r = s.flip() ? 10 : 120; Curve k; bool full = s.chance( 1, 6 );
    P ce = point( s, r ); if( full ) k = circle( ce, radius( s, r ) ); else if( s.chance( 1, 3 ) ) { LD q = radius( s, r ), a = nearAxis( s ), b = s.flip() ? nearAxis( s ) : angle( s ); P p = onCircle( ce, q, a ), e = onCircle( ce, q, b ); if( dist( p, e ) < 0.01L * q || dist( p, e ) < 1e-5L ) return; k = arc( ce, p, e, false ); } else k = genArc( s, ce, radius( s, r ) );
    if( k.r < 0.01L ) return;
    bool bad = fabsl( dist( k.c, k.s ) - dist( k.c, k.e ) ) > 5e-9L; if( bad ) return;
    if( k.sw < 0 ) { std::swap( k.s, k.e ); k.a0 += k.sw; k.sw = -k.sw; }
    LD z0 = (double)coord( s, 50 ), z1 = (double)coord( s, 50 ); if( fabsl( z0 - z1 ) < 0.01L ) z1 = z0 + 1;
    bool rev = s.flip(); LD top = std::max( z0, z1 ), bot = std::min( z0, z1 );
    c.desc = show( k ) + strf( "\ntop %.17g bottom %.17g reverse %d\n", (double)z0, (double)z1, (int)rev );
    IGES m; IGES_GEOM_CYLINDER g; IGES_ENTITY_144** res = NULL; int n = 0;
    REQ( !g.Instantiate( &m, 1, 0, res, n, false ) && !n, "a cylinder without parameters was made" );
    if( s.chance( 1, 5 ) ) { Curve other = genArc( s, ce, radius( s, r ) ); g.SetParams( mp( other.c ), mp( other.s ), mp( other.e ) ); }
    REQ( g.SetParams( mp( k.c ), mp( k.s ), mp( k.e ) ), "valid parameters refused" );
    REQ( g.Instantiate( &m, (double)z0, (double)z1, res, n, rev ) && res && n >= 1 && n <= 3, "the cylinder was not made" );
    delete[] res;
    PDoc d; std::vector<sol::Face> F = facesOf( m, c, d ); REQ( (int)F.size() == n, "number of faces" );
    LD tol = 2e-6L + 4e-8L * k.r, st = 0, sb = 0; std::vector<Wall> ws;
    for( auto& f : F )
    {
        sol::checkFace( f, tol ); Wall w = wallOf( f, top, bot, tol ); ws.push_back( w ); st += w.top.length(); sb += w.bot.length();
        for( int i = 0; i <= 4; ++i ) for( auto* q : { &w.top, &w.bot } ) { LD e = k.distTo( flat( q->at( i / 4.0L ) ) ); REQ( e < tol, "the cylinder leaves the arc by " << (double)e ); }
        REQ( w.top.length() <= k.r * PI + tol, "a part covers more than half a turn" );
        P mid = flat( w.top.at( 0.5L ) ); V b0 = f.outer.b[0].at( 0.5L ), b1 = f.outer.b[2].at( 0.5L ); LD uu = ( b0.x + b1.x ) / 2, vv = ( b0.y + b1.y ) / 2;
        V q = f.s.at( uu, vv ); REQ( hypotl( q.x - mid.x, q.y - mid.y ) < tol * 10 && q.z > bot && q.z < top, "the trimmed area is not between the edges" );
        V nn = f.s.normal( uu, vv ); LD o = nn.x * ( mid.x - k.c.x ) + nn.y * ( mid.y - k.c.y );
        REQ( ( o > 0 ) == !rev, "the surface faces the wrong way" );
    }
    LD L = k.length(); REQ( fabsl( st - L ) < tol * 10 && fabsl( sb - L ) < tol * 10, "the edges are " << (double)st << "/" << (double)sb << " long instead of " << (double)L );
    for( int i = 0; i <= 12; ++i ) { P p = k.at( i / 12.0L ); LD b = 1e30L; for( auto& w : ws ) b = std::min( b, w.top.distTo( sol::v3( p.x, p.y, top ) ) ); REQ( b < tol, "part of the arc is not covered" ); }
    c.nontrivial = true; c.label( strf( "%d parts%s", n, rev ? ", reversed" : "" ) );
}

void wall( Src& s, Ctx& c )
{
    // a convex quadrangle in any plane
    auto q3 = [&]() { return sol::v3( coord( s, 100 ), coord( s, 100 ), coord( s, 100 ) ); };
    auto rd = []( V p ) { return sol::v3( (double)p.x, (double)p.y, (double)p.z ); };
    V o = q3(), a = q3() - o, b = q3() - o; if( sol::len( a ) < 0.1L || sol::len( b ) < 0.1L || sol::len( sol::cross( a, b ) ) < 0.05L * sol::len( a ) * sol::len( b ) ) return;
    V p[4]; p[0] = rd( o ); p[1] = rd( o + a ); p[3] = rd( o + b ); LD u = 1, v = 1; if( s.flip() ) { u = 0.7L + s.range( 0, 10 ) / 10.0L; v = 0.7L + s.range( 0, 10 ) / 10.0L; }
    p[2] = rd( o + u * a + v * b );
    IGES m; IGES_GEOM_WALL w; REQ( !w.Instantiate( &m ), "a wall without parameters was made" );
    auto M = []( V x ) { return MCAD_POINT( (double)x.x, (double)x.y, (double)x.z ); };
    if( s.chance( 1, 4 ) ) w.SetParams( M( p[3] ), M( p[0] ), M( p[2] ), M( p[1] ) );
    for( auto& x : p ) c.desc += strf( "(%.17g,%.17g,%.17g)\n", (double)x.x, (double)x.y, (double)x.z );
    REQ( w.SetParams( M( p[0] ), M( p[1] ), M( p[2] ), M( p[3] ) ), "valid corners refused" );
    REQ( !w.Instantiate( NULL ), "a wall was made without a model" );
    REQ( w.Instantiate( &m ), "the wall was not made" );
    PDoc d; std::vector<sol::Face> F = facesOf( m, c, d ); REQ( F.size() == 1, "number of faces" ); const sol::Face& f = F[0];
    LD tol = 2e-6L; sol::checkFace( f, tol ); REQ( f.outer.c.size() == 4 && f.inner.empty(), "a wall has four edges" );
    for( int i = 0; i < 4; ++i ) REQ( sol::len( f.outer.c[i].at( 0 ) - p[i] ) < tol, "corner " << i << " is elsewhere" );
    // bilinear patch
    for( int i = 0; i <= 4; ++i ) for( int j = 0; j <= 4; ++j )
    {
        LD x = i / 4.0L, y = j / 4.0L; V e = ( ( 1 - x ) * ( 1 - y ) ) * p[0] + ( x * ( 1 - y ) ) * p[1] + ( x * y ) * p[2] + ( ( 1 - x ) * y ) * p[3];
        V g = f.s.at( f.s.u0 + x * ( f.s.u1 - f.s.u0 ), f.s.v0 + y * ( f.s.v1 - f.s.v0 ) ); REQ( sol::len( g - e ) < tol, "the surface is not spanned by the corners" );
    }
    c.nontrivial = true; c.label( u == 1 && v == 1 ? "parallelogram" : "general quadrangle" );
}
PROPERTY( "C15", "board", "faces of a generated outline were checked", 12000, 300000, board );
PROPERTY( "C15", "cylinder", "the parts of a cylinder were checked", 40000, 600000, cylinder );
PROPERTY( "C15", "wall", "a wall was checked", 40000, 600000, wall );
}
