#include "model.h"
#include "region2d.h"
#include <geom/mcad_outline.h>
#include <memory>

// C14: outlines know their interior, and combining them is the boolean operation on the regions
using namespace g2;
namespace
{
typedef std::unique_ptr<MCAD_OUTLINE> OL;
// a loop that is accepted as valid input: arcs with radii equal to within what the library demands
bool buildable( const Loop& l )
{
    if( l.empty() ) return false;
    for( auto& k : l ) if( k.t == ARC && fabsl( dist( k.c, k.s ) - dist( k.c, k.e ) ) > 5e-9L ) return false;
    return true;
}
MCAD_OUTLINE* build( const Loop& l )
{
    OL o( new MCAD_OUTLINE ); size_t n = 0;
    for( auto& k : l )
    {
        std::unique_ptr<MCAD_SEGMENT> g( new MCAD_SEGMENT ); bool err = true;
        REQ( apply( k, *g ), "valid segment parameters were refused: " << show( k ) );
        REQ( !o->IsClosed(), "the outline is closed before its last segment" );
        REQ( o->AddSegment( g.get(), err ) && !err, "a segment which continues the outline was refused" ); g.release(); ++n;
    }
    return o.release();
}
Loop read( MCAD_OUTLINE& o ) { Loop l; for( auto* g : *o.GetSegments() ) l.push_back( of( *g ) ); return l; }
// the outline must be closed, consecutive and counterclockwise
void wellFormed( MCAD_OUTLINE& o, const std::string& what )
{
    REQ( o.IsClosed(), what << ": the outline is not closed" ); REQ( o.IsContiguous(), what << ": the outline is not contiguous" );
    Loop l = read( o ); REQ( !l.empty(), what << ": empty outline" );
    if( l.size() == 1 ) REQ( l[0].t == CIRCLE, what << ": a single segment which is no circle" );
    else for( size_t i = 0; i < l.size(); ++i ) { REQ( l[i].t != CIRCLE, what << ": a circle among other segments" ); REQ( dist( l[i].e, l[( i + 1 ) % l.size()].s ) < 3e-8L, what << ": gap after segment " << i << "\n" << show( l ) ); }
    REQ( area( l ) > 0, what << ": the outline does not run counterclockwise\n" << show( l ) );
    for( auto& k : l ) if( k.t == ARC ) REQ( fabsl( dist( k.c, k.s ) - dist( k.c, k.e ) ) < 1e-6L, what << ": an arc's ends are at different distances from its center\n" << show( k ) );
}
std::vector<P> samples( Src& s, const std::vector<Loop>& ls, int n )
{
    std::vector<P> o, v; P lo{ 1e30L, 1e30L }, hi{ -1e30L, -1e30L };
    for( auto& l : ls ) { P a, b; bbox( l, a, b ); lo.x = std::min( lo.x, a.x ); lo.y = std::min( lo.y, a.y ); hi.x = std::max( hi.x, b.x ); hi.y = std::max( hi.y, b.y ); for( auto& k : l ) { v.push_back( k.s ); if( k.t != LINE ) { v.push_back( k.c ); v.push_back( P{ k.c.x, k.c.y + k.r } ); v.push_back( P{ k.c.x - k.r, k.c.y - k.r } ); } } }
    lo.x -= 3; lo.y -= 3; hi.x += 3; hi.y += 3;
    for( int i = 0; i < n; ++i )
    {
        P p{ lo.x + ( hi.x - lo.x ) * s.draw( 10001 ) / 10000.0L, lo.y + ( hi.y - lo.y ) * s.draw( 10001 ) / 10000.0L };
        int k = s.range( 0, 4 );
        if( k == 1 || k == 2 ) p.y = s.pick( v ).y;             // level with a vertex, center or extremum
        else if( k == 3 ) { p.x = roundl( p.x ); p.y = roundl( p.y ); }
        p.x = (double)p.x; p.y = (double)p.y; o.push_back( p );
    }
    return o;
}
// the outline's own idea of its interior
void checkInside( MCAD_OUTLINE& o, const std::vector<P>& pts, Src* s, const std::string& what, Ctx& c )
{
    Loop l = read( o );
    for( auto& p : pts )
    {
        if( distTo( l, p ) < 1e-5L ) continue;
        int w = inside( l, p ); if( w < 0 ) continue;
        bool err = false, g = o.IsInside( mp( p ), err );
        REQ( !err && g == ( w == 1 ), what << ": point (" << (double)p.x << "," << (double)p.y << ") is reported " << ( g ? "inside" : "outside" ) << ( err ? " with error" : "" ) << "\n" << show( l ) );
        c.label( w ? "point inside" : "point outside" );
    }
    if( s ) for( int i = 0; i < 3; ++i )
    {
        const Curve& k = s->pick( l ); LD u = s->range( 0, 8 ) / 8.0L; P p = u == 0 ? k.s : u == 1 ? k.e : k.at( u );
        bool err = false, g = o.IsInside( mp( p ), err );
        REQ( g && !err, what << ": point (" << (double)p.x << "," << (double)p.y << ") of the outline itself is reported outside\n" << show( l ) ); c.label( "point on the outline" );
    }
}

void buildTest( Src& s, Ctx& c )
{
    LD r = s.flip() ? 10 : 120; P at = point( s, r );
    Loop l = genLoop( s, at, r ); if( !buildable( l ) ) return;
    int rot = s.range( 0, (int)l.size() - 1 ); std::rotate( l.begin(), l.begin() + rot, l.end() );
    bool cw = s.flip(); Loop in = cw && l.size() > 1 ? reversed( l ) : l;
    c.desc = show( in );
    // an unfinished outline refuses what needs a closed one
    MCAD_OUTLINE u; bool err = false; MCAD_SEGMENT none;
    REQ( !u.IsClosed() && !u.IsContiguous(), "an empty outline is closed" );
    REQ( !u.IsInside( MCAD_POINT( 0, 0, 0 ), err ) && err, "an empty outline has an interior" );
    err = false; REQ( !u.AddSegment( NULL, err ) && err, "a null segment was accepted" );
    err = false; REQ( !u.AddSegment( &none, err ) && err, "an undefined segment was accepted" );
    OL o( build( in ) );
    REQ( o->GetSegments()->size() == l.size(), "number of segments" );
    wellFormed( *o, "after building" );
    Loop got = read( *o ); LD A = area( l );
    REQ( fabsl( area( got ) - A ) < 1e-6L * ( 1 + A ), "the area changed from " << (double)A << " to " << (double)area( got ) );
    // nothing more can be added; a gap is refused
    { MCAD_SEGMENT x; x.SetParams( mp( in.back().e ), MCAD_POINT( (double)in.back().e.x + 1, 1e5, 0 ) ); err = false; REQ( !o->AddSegment( &x, err ) && err, "a segment was added to a closed outline" ); }
    if( in.size() > 1 )
    {
        OL p( new MCAD_OUTLINE ); MCAD_SEGMENT* g = new MCAD_SEGMENT; apply( in[0], *g ); REQ( p->AddSegment( g, err ), "first segment" );
        MCAD_SEGMENT x; P q = in[0].e; q.x += 1e-6L; x.SetParams( mp( q ), MCAD_POINT( 1e4, 1e5, 0 ) ); err = false;
        REQ( !p->AddSegment( &x, err ) && err && p->GetSegments()->size() == 1, "a segment which does not continue the outline was accepted" );
        MCAD_SEGMENT z; apply( circle( at, r ), z ); err = false; REQ( !p->AddSegment( &z, err ) && err && !p->IsClosed(), "a circle was added to other segments" );
    }
    checkInside( *o, samples( s, { got }, 12 ), &s, "after building", c );
    wellFormed( *o, "after queries" );
    c.nontrivial = true; c.label( cw ? "given clockwise" : "given counterclockwise" );
}

struct Shape { Loop l; };
// a history of boolean operations and cutouts
void ops( Src& s, Ctx& c )
{
    LD r = s.flip() ? 10 : 100; P at = s.flip() ? P{ 0, 0 } : point( s, r );
    Loop base = genLoop( s, at, r ); if( !buildable( base ) ) return;
    OL o( build( base ) ); c.desc = "base\n" + show( base );
    std::vector<Loop> in{ base }; std::vector<int> kind{ 1 };     // 1 add, 2 subtract (main), 3 cutout
    auto member = [&]( P p ) -> int
    {
        bool m = false, cut = false;
        for( size_t i = 0; i < in.size(); ++i ) { int w = inside( in[i], p ); if( w < 0 ) return -1; if( w ) { if( kind[i] == 1 ) m = true; else if( kind[i] == 2 ) m = false; else cut = true; } }
        return ( m ? 1 : 0 ) + ( cut ? 2 : 0 );
    };
    int n = s.range( 1, 5 ), done = 0;
    for( int i = 0; i < n; ++i )
    {
        // somewhere on the present boundary, or anywhere
        Loop cur = read( *o ); P pos; int wpos = s.weighted( { 6, 2 } );
        if( wpos == 0 ) { const Curve& k = s.pick( cur ); pos = k.at( ( 1 + s.draw( 99 ) ) / 100.0L ); pos.x = (double)pos.x; pos.y = (double)pos.y; if( s.flip() ) { pos.x = roundl( pos.x ); pos.y = roundl( pos.y ); } }
        else pos = P{ (double)( at.x + coord( s, r ) ), (double)( at.y + coord( s, r ) ) };
        Loop b = genLoop( s, pos, r * ( 0.1L + s.draw( 100 ) / 120.0L ) ); if( !buildable( b ) ) continue;
        // a vertex on a vertex or on an edge
        int al = s.weighted( { 4, 2, 1 } );
        if( al )
        {
            const Curve& k = s.pick( cur ); P v = al == 1 ? k.s : k.at( ( 1 + s.draw( 15 ) ) / 16.0L ); v.x = (double)v.x; v.y = (double)v.y;
            const Curve& w = s.pick( b ); P q = s.flip() ? w.s : w.t == ARC ? w.at( ( 1 + s.draw( 7 ) ) / 8.0L ) : w.e;
            b = moved( b, P{ v.x - q.x, v.y - q.y } ); if( !buildable( b ) ) continue;
        }
        if( s.flip() && b.size() > 1 ) b = reversed( b );
        int op = s.range( 0, 3 );           // add, sub, cutout with test, cutout without
        bool circ = b.size() == 1 && s.flip();
        static const char* on[] = { "add", "subtract", "cut out (overlaps unknown)", "cut out (known separate)" };
        if( op == 3 && ( crossings( cur, b ) != 0 ) ) op = 2;
        c.desc += strf( "%s%s\n", on[op], circ ? " circle" : "" ) + show( b );
        Loop ccw = area( b ) < 0 ? reversed( b ) : b;
        std::vector<P> xp; bool vertex = false; int nx = crossings( cur, ccw, &xp, 0.02L, 1e-4L, 1e-2L, &vertex ); if( vertex ) c.label( "contact at a vertex" ); if( nx < 0 ) c.label( "contact in special position" );
        size_t ncut = o->GetCutouts()->size(), nhole = o->GetDrillHoles()->size();
        bool cutTouch = false; std::vector<Loop> cuts; for( auto* q : *o->GetCutouts() ) { cuts.push_back( read( *q ) ); if( crossings( cuts.back(), ccw ) != 0 ) cutTouch = true; }
        bool alive = true, err = s.flip(); bool ok;
        MCAD_SEGMENT* sg = NULL; MCAD_OUTLINE* ol = NULL;
        if( circ ) { sg = new MCAD_SEGMENT; apply( b[0], *sg ); sg->AttachValidFlag( &alive ); }
        else { ol = build( b ); ol->AttachValidFlag( &alive ); }
        if( op == 0 ) ok = circ ? o->AddOutline( sg, err ) : o->AddOutline( ol, err );
        else if( op == 1 ) ok = circ ? o->SubOutline( sg, err ) : o->SubOutline( ol, err );
        else ok = circ ? o->AddCutout( sg, op == 2, err ) : o->AddCutout( ol, op == 2, err );
        std::string errs; for( auto& e : *o->GetErrors() ) errs += e + "\n"; o->ClearErrors();
        std::string res = strf( "-> %d error %d (%d crossings)\n", (int)ok, (int)err, nx ); c.desc += res;
        std::string what = std::string( on[op] ) + ( circ ? " circle: " : ": " );
        bool kept = o->GetCutouts()->size() > ncut || o->GetDrillHoles()->size() > nhole;
        // whoever does not own the argument must not have touched it
        if( ok && !kept ) REQ( !alive, what << "the operation succeeded and left the argument to the caller" );
        if( !ok ) REQ( alive, what << "the operation failed and deleted the argument" );
        if( kept ) { REQ( alive && ok, what << "a cutout is in the list but the operation failed" ); if( circ ) sg->DetachValidFlag( &alive ); else ol->DetachValidFlag( &alive ); }
        if( !ok )
        {
            Loop left; if( circ ) left.push_back( of( *sg ) ); else { wellFormed( *ol, what + "argument after failure" ); left = read( *ol ); }
            REQ( fabsl( area( left ) - area( ccw ) ) < 1e-6L * ( 1 + area( ccw ) ), what << "the argument changed although the operation failed\n" << show( left ) );
            if( circ ) delete sg; else delete ol;
        }
        wellFormed( *o, what + "result" );
        Loop now = read( *o );
        if( !ok )
        {
            REQ( fabsl( area( now ) - area( cur ) ) < 1e-6L * ( 1 + area( cur ) ), what << "the outline changed although the operation failed\n" << show( now ) );
        }
        else
        {
            // did it change the boundary or become a cutout?
            bool merged = !kept && op == 2 && fabsl( area( now ) - area( cur ) ) < 1e-9L && nx == 0;    // merged into another cutout
            in.push_back( ccw ); kind.push_back( op == 0 ? 1 : op == 1 ? 2 : kept || merged ? 3 : 2 );
            ++done;
        }
        // what must happen
        if( nx == 2 && op < 3 ) REQ( ok && !err, what << "outlines which cross at two points were not combined" << res << errs );
        if( nx == 2 && op == 2 ) REQ( !kept, what << "the cutout crosses the outline but was not subtracted" );
        if( nx > 2 && op < 2 ) REQ( !ok && err, what << "outlines which cross at " << nx << " points: " << res );
        if( nx == 0 && op < 2 )
        {
            bool circles = cur.size() == 1 && ccw.size() == 1;
            REQ( !ok, what << "outlines which do not cross were combined" );
            if( !circles ) REQ( !err, what << "error although the outlines do not meet" << res << errs );
        }
        if( nx == 0 && op == 2 && !cutTouch && !( cur.size() == 1 && ccw.size() == 1 ) ) REQ( ok && kept && !err, what << "a separate cutout was refused" << res << errs );
        if( op == 3 ) REQ( ok && kept && !err, what << "a cutout known to be separate was refused" );
        if( ok && op == 0 && nx == 2 ) REQ( area( now ) > area( cur ) - 1e-6L && area( now ) < area( cur ) + area( ccw ) + 1e-6L, what << "area of the union" );
        c.label( strf( "%s, %d crossings%s", on[op], nx < 3 ? nx : 3, ok ? "" : ", refused" ) );
        // membership
        std::vector<Loop> all{ now }; for( auto* q : *o->GetCutouts() ) { wellFormed( *q, what + "cutout" ); all.push_back( read( *q ) ); }
        for( auto* q : *o->GetDrillHoles() ) { REQ( q->GetSegType() == MCAD_SEGTYPE_CIRCLE, "a drill hole is no circle" ); all.push_back( Loop{ of( *q ) } ); }
        std::vector<Loop> every = all; every.push_back( ccw );
        std::vector<P> pts = samples( s, every, 10 );
        for( auto& p : pts )
        {
            bool near = false; for( auto& l : every ) near = near || distTo( l, p ) < 1e-4L; for( auto& l : in ) near = near || distTo( l, p ) < 1e-4L; if( near ) continue;
            int w = member( p ); if( w < 0 ) continue;
            int m = inside( now, p ); bool cut = false; for( size_t j = 1; j < all.size(); ++j ) { int z = inside( all[j], p ); if( z < 0 ) { m = -1; break; } cut = cut || z; }
            if( m < 0 ) continue;
            bool want = ( w & 1 ) && !( w & 2 ), got = m && !cut;
            REQ( want == got, what << "point (" << (double)p.x << "," << (double)p.y << ") is " << ( got ? "in" : "not in" ) << " the result" << res << show( now ) );
        }
        checkInside( *o, pts, s.chance( 1, 3 ) ? &s : NULL, what + "result", c );
        if( in.size() > 1 ) c.nontrivial = true;
    }
    if( done > 1 ) c.label( "several operations in a row" );
}
PROPERTY( "C14", "build", "a closed outline was built and sample points were classified", 300000, 4000000, buildTest );
PROPERTY( "C14", "ops", "at least one operation changed the outline or its cutouts", 300000, 4000000, ops );
}
