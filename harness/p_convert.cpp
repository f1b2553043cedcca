#include "idfmodel.h"
#include "pcbsolid.h"
#include <sys/stat.h>
#include <unistd.h>
#include <set>
#include <map>

// C18: the converter from IDF to IGES makes exactly the solids the board describes
using namespace g2;
int idf2igs_main( int argc, char** argv );
namespace
{
typedef sol::V V;
// no joint where the boundary turns back on itself
bool cusp( const Loop& l )
{
    for( size_t i = 0; i < l.size() && l.size() > 1; ++i )
    {
        const Curve& a = l[i]; const Curve& b = l[( i + 1 ) % l.size()]; P p = b.s, u = a.at( 1 - 1e-4L ), v = b.at( 1e-4L );
        LD x = ( u.x - p.x ) * ( v.x - p.x ) + ( u.y - p.y ) * ( v.y - p.y ), y = ( u.x - p.x ) * ( v.y - p.y ) - ( u.y - p.y ) * ( v.x - p.x ); if( fabsl( atan2l( y, x ) ) < 0.05L ) return true;
    }
    return false;
}
bool buildable( const Loop& l ) { if( l.empty() || !simple( l ) || cusp( l ) ) return false; for( auto& k : l ) if( k.t == ARC && fabsl( dist( k.c, k.s ) - dist( k.c, k.e ) ) > 5e-9L ) return false; return true; }
struct Solid { Loop outer; std::vector<Loop> holes; LD top, bot; bool overlap = false; };
// all loops apart from each other
bool apart( const Loop& a, const Loop& b ) { return crossings( a, b ) == 0; }
LD dist2( const Loop& a, const Loop& b ) { LD d = 1e30L; for( auto& k : a ) for( int i = 0; i < 32; ++i ) d = std::min( d, distTo( b, k.at( i / 32.0L ) ) ); return d; }
// can b be cut out of what is inside o, apart from the holes
bool fits( const Loop& b, const Loop& o, const std::vector<Loop>& h )
{
    if( crossings( o, b ) != 0 || inside( o, b[0].s ) != 1 ) return false;
    for( auto& x : h ) if( crossings( x, b ) != 0 || inside( x, b[0].s ) != 0 || inside( b, x[0].s ) != 0 ) return false;
    return true;
}
// 1 in the material, 0 not, -1 unclear
int material( const Solid& s, P p )
{
    if( distTo( s.outer, p ) < 1e-4L ) return -1; int r = inside( s.outer, p ); if( r <= 0 ) return r;
    for( auto& h : s.holes ) { if( distTo( h, p ) < 1e-4L ) return -1; int i = inside( h, p ); if( i < 0 ) return -1; if( i ) return 0; }
    return 1;
}
// the loops of a level face
Loop flatLoop( const sol::Loop& l )
{
    Loop o;
    for( auto& k : l.c )
    {
        V a = k.at( 0 ), b = k.at( 1 ), m = k.at( 0.5L ); P s{ a.x, a.y }, e{ b.x, b.y };
        if( k.k == sol::Curve::LINE ) { o.push_back( line( s, e ) ); continue; }
        REQ( k.k == sol::Curve::ARC, "a level boundary is neither line nor arc" );
        V cc = sol::app( k.x, sol::v3( k.c.x, k.c.y, k.zt ) ); P c{ cc.x, cc.y };
        if( dist( s, e ) < 1e-9L ) { o.push_back( circle( c, k.r ) ); continue; }
        // sense from the middle
        Curve q = arc( c, s, e, false ); if( dist( q.at( 0.5L ), P{ m.x, m.y } ) > 0.5L * q.r * ( 1 - cosl( std::min( PI, fabsl( q.sw ) ) / 2 ) ) + 1e-9L && q.distTo( P{ m.x, m.y } ) > 1e-6L * ( 1 + q.r ) ) q = arc( c, s, e, true );
        o.push_back( q );
    }
    return o;
}
void checkPart( const PDoc& d, const std::vector<long>& ents, const Solid& w, Src& s, Ctx& c, const std::string& what )
{
    std::vector<sol::Face> F; for( long e : ents ) F.push_back( sol::face( d, (int)e ) );
    std::vector<Loop> R;
    try
    {
        if( !w.overlap ) { R.push_back( w.outer ); for( auto& h : w.holes ) R.push_back( h ); }
        else
        {
            // which boundary results is taken from the top; it must bound the same points
            const sol::Face* t = NULL; for( auto& f : F ) { V n = f.s.normal( ( f.s.u0 + f.s.u1 ) / 2, ( f.s.v0 + f.s.v1 ) / 2 ); if( n.z > 0.5L * sol::len( n ) && fabsl( f.s.at( f.s.u0, f.s.v0 ).z - w.top ) < 1e-5L ) t = &f; }
            REQ( t && t->outerGiven, "there is no top face" );
            R.push_back( flatLoop( t->outer ) ); for( auto& l : t->inner ) R.push_back( flatLoop( l ) );
            P lo, hi; bbox( w.outer, lo, hi ); int n = 0;
            auto probe = [&]( P p ) { int e = material( w, p ); if( e < 0 ) return; for( auto& l : R ) if( distTo( l, p ) < 1e-4L ) return; int g = inside( R[0], p ); if( g < 0 ) return; for( size_t i = 1; i < R.size() && g; ++i ) { int q = inside( R[i], p ); if( q < 0 ) return; if( q ) g = 0; } ++n; REQ( g == e, "the point (" << (double)p.x << "," << (double)p.y << ") is " << ( e ? "not " : "" ) << "in the top face" ); };
            for( int i = 0; i < 60; ++i ) probe( P{ lo.x + ( hi.x - lo.x ) * s.draw( 1000 ) / 1000.0L, lo.y + ( hi.y - lo.y ) * s.draw( 1000 ) / 1000.0L } );
            auto near = [&]( const Loop& l ) { for( auto& k : l ) for( int i = 0; i <= 4; ++i ) { P p = k.at( ( i + 0.37L ) / 5 ); for( int j = 0; j < 8; ++j ) probe( P{ p.x + 0.02L * cosl( j * PI / 4 + 0.1L ), p.y + 0.02L * sinl( j * PI / 4 + 0.1L ) } ); } };
            near( w.outer ); for( auto& h : w.holes ) near( h ); for( auto& l : R ) near( l );
        }
        checkSolid( F, R, w.top, w.bot, c );
    }
    catch( Failure& f ) { throw Failure( what + ": " + f.what() ); }
}
struct Inst { std::string part, label; double m[12]; bool moved; };

void convert( Src& s, Ctx& c )
{
    idf::Lib lib; idf::Board b = idf::genBoard( s, &lib ); double sc = idf::mm( b.unit ); bool hard = false;
    auto R = [&]( double v ) { double q = b.unit == "MM" ? 1e5 : b.unit == "THOU" ? 10 : 1; return round( v / sc * q ) / q; };
    // sensible geometry
    auto section = [&]( idf::Sec& x, P at, double r, bool main ) -> Solid
    {
        Solid o; std::vector<idf::Rows> loops; int n = 0;
        for( int t = 0; t < 8 && o.outer.empty(); ++t ) { idf::Rows q = idf::genRows( s, b.unit, at, r, false ); Loop l = idf::loopOf( q, sc ); if( buildable( l ) ) { o.outer = l; loops.push_back( q ); } }
        if( o.outer.empty() ) return o;
        P lo, hi; bbox( o.outer, lo, hi );
        for( n = s.weighted( { 3, 2, 1, 1 } ); n > 0; --n )
        {
            P p{ lo.x + ( hi.x - lo.x ) * s.draw( 1000 ) / 1000.0L, lo.y + ( hi.y - lo.y ) * s.draw( 1000 ) / 1000.0L };
            idf::Rows q = idf::genRows( s, b.unit, p, r * ( 2 + s.draw( 20 ) ) / 60.0, true ); Loop l = idf::loopOf( q, sc ); if( !buildable( l ) || !fits( l, o.outer, o.holes ) ) continue;
            o.holes.push_back( l ); loops.push_back( q );
        }
        x.loops = loops; x.index.clear(); for( size_t i = 0; i < loops.size(); ++i ) x.index.push_back( (int)i );
        return o;
    };
    Solid B = section( b.board, P{ 0, 0 }, s.flip() ? 60 : 30, true ); if( B.outer.empty() ) return;
    if( b.board.h * sc < 0.05 ) b.board.h = R( 1.6 );
    B.top = b.board.h * sc / 2; B.bot = -B.top; LD half = B.top;
    std::map<std::string, Solid> others; std::set<std::string> flatOther;
    for( size_t i = 0; i < b.secs.size(); )
    {
        auto& x = b.secs[i]; if( x.kind != "OTHER_OUTLINE" ) { ++i; continue; }
        Solid o = section( x, P{ (LD)s.range( -30, 30 ), (LD)s.range( -30, 30 ) }, s.range( 5, 20 ), false );
        if( o.outer.empty() ) { b.secs.erase( b.secs.begin() + i ); continue; }
        LD h = x.h * sc; if( h < 0.05L ) flatOther.insert( x.id );
        if( x.side == "BOTTOM" ) { o.top = -half; o.bot = -half - h; } else { o.bot = half; o.top = half + h; }
        others[x.id] = o; ++i;
    }
    // drills: apart, or clearly overlapping
    bool wild = s.chance( 1, 3 ); std::vector<idf::Drill> keep; P lo, hi; bbox( B.outer, lo, hi ); std::vector<Loop> dl;
    for( auto d : b.drills )
    {
        for( int t = 0; t < 4; ++t )
        {
            P p{ lo.x + ( hi.x - lo.x ) * s.draw( 1000 ) / 1000.0L, lo.y + ( hi.y - lo.y ) * s.draw( 1000 ) / 1000.0L };
            if( wild && s.flip() ) { const Loop& l = dl.empty() || s.flip() ? B.outer : s.flip() || B.holes.empty() ? s.pick( dl ) : s.pick( B.holes ); p = s.pick( l ).at( s.draw( 100 ) / 100.0L ); }
            d.x = R( (double)p.x ); d.y = R( (double)p.y ); Loop l{ circle( P{ (LD)d.x * sc, (LD)d.y * sc }, (LD)d.d * sc / 2 ) };
            if( l[0].r < 0.02L ) continue;
            if( fits( l, B.outer, B.holes ) ) { B.holes.push_back( l ); dl.push_back( l ); keep.push_back( d ); break; }
            if( !wild ) continue;
            // no material to remove: outside, within a cutout or another hole
            if( s.flip() )
            {
                if( !dl.empty() && s.flip() ) { const Loop& o = s.pick( dl ); d.x = (double)( o[0].c.x / sc ); d.y = (double)( o[0].c.y / sc ); if( s.flip() ) d.d *= 0.5; d.x = R( d.x * sc ); d.y = R( d.y * sc ); d.d = R( d.d * sc ); l[0] = circle( P{ (LD)d.x * sc, (LD)d.y * sc }, (LD)d.d * sc / 2 ); if( l[0].r < 0.02L ) continue; }
                else if( s.flip() ) { d.x += R( 200 ); l[0] = circle( P{ (LD)d.x * sc, (LD)d.y * sc }, (LD)d.d * sc / 2 ); }
                bool apart = crossings( B.outer, l ) == 0, in = apart && inside( B.outer, l[0].s ) == 0, same = false;
                for( auto& o : dl ) if( dist( o[0].c, l[0].c ) < 1e-12L && fabsl( o[0].r - l[0].r ) < 1e-12L ) same = true; else if( dist( o[0].c, l[0].c ) + l[0].r < o[0].r - 1e-4L ) in = true;
                for( auto& o : B.holes ) { bool drill = false; for( auto& q : dl ) if( o.size() == 1 && dist( o[0].c, q[0].c ) < 1e-12L ) drill = true; if( drill ) continue; if( crossings( o, l ) ) apart = false; else if( inside( o, l[0].s ) == 1 ) in = true; else if( inside( l, o[0].s ) != 0 ) apart = false; }
                for( auto& o : dl ) { if( same && dist( o[0].c, l[0].c ) < 1e-12L ) continue; LD q = dist( o[0].c, l[0].c ); if( q < o[0].r + l[0].r + 0.05L && q + l[0].r > o[0].r - 1e-4L ) apart = false; }
                if( !same && !( apart && in ) ) continue;
                keep.push_back( d ); c.label( "hole without effect" ); break;
            }
            bool ok = true; int cr = 0; auto chk = [&]( const Loop& o, bool main ) { int n = crossings( o, l ); if( n < 0 ) ok = false; else if( n == 0 ) { if( main ? inside( o, l[0].s ) != 1 : inside( o, l[0].s ) != 0 || inside( l, o[0].s ) != 0 ) ok = false; } else { ++cr; if( n != 2 ) hard = true; } };
            chk( B.outer, true ); for( auto& h : B.holes ) chk( h, false );
            if( !ok ) continue;
            if( cr > 1 ) hard = true;
            B.overlap = true; B.holes.push_back( l ); dl.push_back( l ); keep.push_back( d ); break;
        }
    }
    b.drills = keep;
    // parts
    std::map<std::string, Solid> parts; std::set<std::string> bad, badId;
    for( auto& p : lib.parts )
    {
        std::string id = p.geom + "_" + p.part; double ps = idf::mm( p.unit ); Solid o; if( p.loops.empty() ) { continue; }
        o.outer = idf::loopOf( p.loops[0], ps ); if( !buildable( o.outer ) ) { bad.insert( p.geom + "\n" + p.part ); badId.insert( id ); continue; }
        if( area( o.outer ) < 0 ) o.outer = reversed( o.outer );
        o.bot = 0; o.top = p.h * ps; if( o.top < 0.01L ) continue;
        parts[id] = o;
    }
    for( auto& p : b.places ) if( bad.count( p.geom + "\n" + p.part ) ) return;
    std::map<std::string, int> seen; std::vector<Inst> want;
    std::string base = s.pick( std::vector<std::string>{ "board", "b", "longer-board name.x", "b.1" } );
    want.push_back( Inst{ base, base, {}, false } );
    for( auto& p : b.places )
    {
        std::string id = p.geom + "_" + p.part; if( !parts.count( id ) ) continue;
        bool known = false; for( auto& q : lib.parts ) if( q.geom == p.geom && q.part == p.part ) known = true; if( !known ) continue;
        Inst i; i.part = id; i.label = p.ref == "NOREFDES" ? "*" : p.ref; i.moved = true; bool bt = p.side == "BOTTOM"; LD a = p.rot * PI / 180; if( bt ) a = -a; LD C = cosl( a ), S = sinl( a );
        // flipped about the y axis at the bottom, then turned
        LD m[12] = { bt ? -C : C, -S, 0, (LD)p.x * sc, bt ? -S : S, C, 0, (LD)p.y * sc, 0, 0, bt ? -1.0L : 1.0L, ( half + (LD)p.z * sc ) * ( bt ? -1 : 1 ) };
        for( int k = 0; k < 12; ++k ) i.m[k] = (double)m[k];
        want.push_back( i );
    }
    for( auto& o : others ) want.push_back( Inst{ o.first, o.first, {}, false } );
    std::string bt = idf::emit( b, s ), lt = idf::emit( lib, s ); c.desc = "--- board\n" + bt + "--- library\n" + lt;
    std::string f = c.path( base + ".emn" ); writeFile( f, bt ); writeFile( c.path( base + ".emp" ), lt ); std::string out = c.path( base + ".igs" ); remove( out.c_str() );
    // failures must be reported
    int fail = s.weighted( { 20, 1, 1, 1 } );
    if( fail == 1 ) remove( f.c_str() ); else if( fail == 2 ) { mkdir( out.c_str(), 0700 ); } else if( fail == 3 ) { idf::Board e = b; e.board.loops.clear(); e.board.index.clear(); writeFile( f, idf::emit( e, s ) ); }
    std::vector<char> arg( f.begin(), f.end() ); arg.push_back( 0 ); char prog[] = "idf2igs"; char* av[] = { prog, arg.data(), NULL };
    int rc = idf2igs_main( 2, av ); std::string t = fail ? "" : readFile( out );
    if( s.chance( 1, 8 ) ) { size_t l = leak( [&]() { idf2igs_main( 2, av ); } ); REQ( l == 0, l << " bytes are lost by a conversion which " << ( rc ? "fails" : "succeeds" ) ); }
    if( fail ) { if( fail == 2 ) rmdir( out.c_str() ); REQ( rc != 0, "success although " << ( fail == 1 ? "there is no input" : fail == 2 ? "the output cannot be written" : "the board has no outline" ) ); c.label( "failure reported" ); return; }
    if( hard && rc ) { c.label( "refused" ); return; }
    REQ( rc == 0, "the conversion failed with " << rc ); REQ( !t.empty(), "there is no output" );
    PDoc d; parseIges( t, d ); REQ( d.problems.empty(), "the output is malformed: " << d.problems[0] );
    REQ( d.globals.size() > 11 && d.globals[11].s == "2", "the unit is not millimetre" );
    // the subfigures by their name property
    std::map<std::string, int> fig; std::map<int, std::string> nameOf; size_t faces = 0, inFig = 0;
    for( size_t i = 0; i < d.ents.size(); ++i )
    {
        if( d.ents[i].type == 144 ) ++faces; if( d.ents[i].type != 308 ) continue;
        std::string nm = "?"; const PEnt& e = d.ents[i];
        for( size_t k = 1; k < e.params.size(); ++k ) { long v; if( !tokInt( e.params[k], v ) || v < 1 || !( v & 1 ) || (size_t)v / 2 >= d.ents.size() ) continue; const PEnt& q = d.ents[v / 2]; if( q.type == 406 && q.form == 15 && q.params.size() > 2 ) nm = q.params[2].s; }
        REQ( !fig.count( nm ), "two subfigures are called '" << nm << "'" ); fig[nm] = (int)i; nameOf[(int)i] = nm;
    }
    std::map<std::string, Solid> solids = others; solids[base] = B; for( auto& p : parts ) { bool used = fig.count( p.first ); for( auto& i : want ) used = used || ( i.part == p.first && i.moved ); if( used ) { if( solids.count( p.first ) ) return; solids[p.first] = p.second; } }
    for( auto& x : fig ) if( !solids.count( x.first ) ) { REQ( badId.count( x.first ), "the output has an unexpected subfigure '" << x.first << "'" ); }
    for( auto& x : solids )
    {
        if( flatOther.count( x.first ) ) { c.label( "flat other outline" ); continue; }
        REQ( fig.count( x.first ), "there is no subfigure '" << x.first << "'" ); int e = fig[x.first]; std::vector<long> de; long n = (long)sol::num( d, e, 3 );
        for( long k = 0; k < n; ++k ) { long q = sol::ptr( d, e, 4 + k ); REQ( q >= 0 && d.ents[q].type == 144, "the subfigure '" << x.first << "' contains something else than faces" ); de.push_back( q ); REQ( d.ents[q].color < 0 && d.ents[-d.ents[q].color / 2].type == 314, "a face of '" << x.first << "' has no color" ); }
        checkPart( d, de, x.second, s, c, x.first == base ? "board" : others.count( x.first ) ? "other outline" : "part" );
    }
    for( auto& x : fig ) { if( flatOther.count( x.first ) ) { faces -= (size_t)sol::num( d, x.second, 3 ); continue; } inFig += (size_t)sol::num( d, x.second, 3 ); }
    REQ( faces == inFig, faces << " faces, of which " << inFig << " belong to a part" );
    // the instances
    std::vector<bool> got( want.size(), false );
    for( size_t i = 0; i < d.ents.size(); ++i )
    {
        if( d.ents[i].type != 408 ) continue; long e = sol::ptr( d, (int)i, 1 ); REQ( e >= 0 && nameOf.count( (int)e ), "an instance of no part" ); std::string nm = nameOf[(int)e];
        if( flatOther.count( nm ) ) continue;
        sol::Xf x; if( d.ents[i].xform ) x = sol::transformOf( d, (int)i ); LD sca = sol::num( d, (int)i, 5 ); REQ( sca == 1, "an instance has the scale " << (double)sca );
        LD tr[3] = { sol::num( d, (int)i, 2 ), sol::num( d, (int)i, 3 ), sol::num( d, (int)i, 4 ) }; for( LD q : tr ) REQ( q == 0, "an instance has a displacement of its own" );
        int hit = -1; std::string lab = d.ents[i].label; while( !lab.empty() && lab[0] == ' ' ) lab.erase( 0, 1 );
        for( size_t k = 0; k < want.size() && hit < 0; ++k )
        {
            const Inst& w = want[k]; if( got[k] || w.part != nm ) continue;
            double id[12] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 }; const double* m = w.moved ? w.m : id; bool same = true;
            for( int r = 0; r < 3 && same; ++r ) { for( int q = 0; q < 3; ++q ) same = same && fabsl( x.r[r][q] - m[r * 4 + q] ) < 2e-7L; same = same && fabsl( ( r == 0 ? x.t.x : r == 1 ? x.t.y : x.t.z ) - m[r * 4 + 3] ) < 1e-6L; }
            if( !same ) continue;
            if( w.label != "*" && w.label.size() <= 8 && w.label != lab ) continue;
            hit = (int)k;
        }
        REQ( hit >= 0, "unexpected instance of '" << nm << "' with label '" << lab << "' at (" << (double)x.t.x << "," << (double)x.t.y << "," << (double)x.t.z << ")" ); got[hit] = true;
    }
    for( size_t k = 0; k < want.size(); ++k ) if( !flatOther.count( want[k].part ) ) REQ( got[k], "there is no instance '" << want[k].label << "' of '" << want[k].part << "' at (" << want[k].m[3] << "," << want[k].m[7] << "," << want[k].m[11] << ")" );
    c.nontrivial = true; c.label( b.ver == 2 ? "version 2" : "version 3" ); c.label( strf( "%d instances", (int)want.size() ) ); if( B.overlap ) c.label( hard ? "overlap, difficult" : "overlap" ); if( !others.empty() ) c.label( strf( "%d other outlines", (int)others.size() ) );
}
PROPERTY( "C18", "convert", "the solids of a converted board were checked", 4000, 200000, convert );
}
