#include "idfmodel.h"
#include <idf_parser.h>
#include <idf_helpers.h>
#include <memory>
#include <algorithm>
#include <cstring>
#include <iostream>

// C16: boards and libraries survive reading and writing
using std::string; using std::vector; using namespace idf;
namespace
{
struct Quiet { std::streambuf* a; std::ostringstream o; Quiet() { a = std::cerr.rdbuf( o.rdbuf() ); } ~Quiet() { std::cerr.rdbuf( a ); } };
typedef std::unique_ptr<IDF3_BOARD> BP;
vector<string> full( vector<string> v ) { v.erase( std::remove( v.begin(), v.end(), string() ), v.end() ); return v; }

string low( string s ) { for( auto& c : s ) c = tolower( c ); return s; }
bool isNoRef( const string& r ) { return r.empty() || r == "~" || low( r.substr( 0, 8 ) ) == "norefdes"; }

// ---- what the library should have in memory (mm)
struct Expect { Board b; Lib l; bool mech = false, nosub = false; int subs = -1; std::set<string> bare; string source = "Created by KiCad-IDF Framework"; };   // subs: substitutes if known, bare: components left without anything
IDF3::KEY_OWNER owner( const string& s ) { return s == "MCAD" ? IDF3::MCAD : s == "ECAD" ? IDF3::ECAD : IDF3::UNOWNED; }
IDF3::IDF_LAYER layer( const string& s ) { return s == "TOP" ? IDF3::LYR_TOP : s == "BOTTOM" ? IDF3::LYR_BOTTOM : s == "BOTH" ? IDF3::LYR_BOTH : s == "INNER" ? IDF3::LYR_INNER : s == "ALL" ? IDF3::LYR_ALL : IDF3::LYR_INVALID; }
#define NEAR( a, b, tol, what ) do { double a_ = ( a ), b_ = ( b ); REQ( fabs( a_ - b_ ) <= ( tol ), what << ": " << a_ << " instead of " << b_ ); } while( 0 )
void checkComments( const std::list<string>* have, const vector<string>& want, const string& what )
{
    vector<string> h( have->begin(), have->end() ); for( auto& x : h ) { size_t a = x.find_last_not_of( " \t" ); x = a == string::npos ? "" : x.substr( 0, a + 1 ); }
    string hs, ws; for( auto& x : h ) hs += x + "\n"; for( auto& x : want ) if( !x.empty() ) ws += x + "\n";   // empty comments are dropped
    REQ( hs == ws, what << ": comments are\n" << hs << "instead of\n" << ws );
}
// segments of a loop, in mm
void checkLoop( IDF_OUTLINE* o, const Rows& r, double sc, const string& what )
{
    const double T = 1e-9; bool circ = r.size() == 2 && fabs( r[1].a ) == 360;
    REQ( o->size() == r.size() - 1, what << ": " << o->size() << " segments instead of " << r.size() - 1 );
    REQ( o->IsCircle() == circ, what << ": IsCircle is wrong" );
    g2::Loop l = loopOf( r, sc ); size_t i = 0;
    for( auto it = o->begin(); it != o->end(); ++it, ++i )
    {
        IDF_SEGMENT* s = *it; std::ostringstream w; w << what << ", segment " << i;
        if( circ )
        {
            REQ( s->IsCircle(), w.str() << " is no circle" ); double rad = hypot( r[1].x - r[0].x, r[1].y - r[0].y ) * sc;
            NEAR( s->startPoint.x, r[0].x * sc, T, w.str() + ": centre x" ); NEAR( s->startPoint.y, r[0].y * sc, T, w.str() + ": centre y" ); NEAR( s->endPoint.x, r[1].x * sc, T, w.str() + ": end x" ); NEAR( s->endPoint.y, r[1].y * sc, T, w.str() + ": end y" );
            NEAR( s->center.x, r[0].x * sc, 1e-7, w.str() + ": centre x" ); NEAR( s->center.y, r[0].y * sc, 1e-7, w.str() + ": centre y" ); NEAR( s->radius, rad, 1e-7, w.str() + ": radius" ); continue;
        }
        NEAR( s->startPoint.x, r[i].x * sc, T, w.str() + ": start x" ); NEAR( s->startPoint.y, r[i].y * sc, T, w.str() + ": start y" ); NEAR( s->endPoint.x, r[i + 1].x * sc, T, w.str() + ": end x" ); NEAR( s->endPoint.y, r[i + 1].y * sc, T, w.str() + ": end y" ); NEAR( s->angle, r[i + 1].a, 1e-9, w.str() + ": angle" );
        REQ( !s->IsCircle(), w.str() << " is a circle" );
        if( r[i + 1].a != 0 )
        {
            g2::Curve& k = l[i]; double tol = 1e-6 * ( 1 + (double)k.r );
            NEAR( s->radius, (double)k.r, tol, w.str() + ": radius" ); NEAR( s->center.x, (double)k.c.x, tol, w.str() + ": centre x" ); NEAR( s->center.y, (double)k.c.y, tol, w.str() + ": centre y" );
            double a = s->offsetAngle * M_PI / 180; NEAR( s->center.x + s->radius * cos( a ), r[i].x * sc, tol * 2, w.str() + ": start x from its angle" ); NEAR( s->center.y + s->radius * sin( a ), r[i].y * sc, tol * 2, w.str() + ": start y from its angle" );
        }
        g2::P lo, hi; l[i].bbox( lo, hi ); double tol = 2e-6 * ( 1 + (double)l[i].r ); NEAR( s->GetMinX(), (double)lo.x, tol, w.str() + ": leftmost x" );
        IDF_SEGMENT v( *s ); v.SwapEnds(); REQ( v.startPoint.x == s->endPoint.x && v.startPoint.y == s->endPoint.y && v.endPoint.x == s->startPoint.x && v.endPoint.y == s->startPoint.y && v.angle == -s->angle && v.center.x == s->center.x && v.center.y == s->center.y && v.radius == s->radius, w.str() << ": SwapEnds" ); NEAR( v.GetMinX(), (double)lo.x, tol, w.str() + ": leftmost x once reversed" );
    }
    if( !circ ) { double a = (double)g2::area( l ), ar; ar = fabs( a ); if( ar > 1e-3 ) REQ( o->IsCCW() == ( a > 0 ), what << ": IsCCW is " << o->IsCCW() << " for an area of " << a ); }
}
void checkSec( BOARD_OUTLINE* o, const Sec& x, double sc, const string& what )
{
    REQ( o->GetOwner() == owner( x.owner ), what << ": owner " << o->GetOwner() );
    REQ( o->OutlinesSize() == x.loops.size(), what << ": " << o->OutlinesSize() << " loops instead of " << x.loops.size() );
    for( size_t i = 0; i < x.loops.size(); ++i ) checkLoop( o->GetOutline( i ), x.loops[i], sc, what + ", loop " + std::to_string( i ) );
    checkComments( o->GetComments(), x.com, what ); REQ( o->CommentsSize() == o->GetComments()->size(), what << ": number of comments" );
    REQ( o->GetOutline( x.loops.size() ) == NULL, what << ": a loop beyond the last" );
}
const Part* find( const Lib& l, const string& g, const string& p ) { for( auto& q : l.parts ) if( q.geom == g && q.part == p ) return &q; return NULL; }

void checkMemory( IDF3_BOARD& b, const Expect& e )
{
    const Board& m = e.b; double sc = mm( m.unit );
    REQ( b.GetBoardName() == m.name, "board name '" << b.GetBoardName() << "'" ); REQ( b.GetBoardSource() == m.src, "board source '" << b.GetBoardSource() << "'" ); REQ( b.GetBoardDate() == m.date, "board date '" << b.GetBoardDate() << "'" ); REQ( b.GetBoardVersion() == m.fver, "board version " << b.GetBoardVersion() );
    REQ( b.GetLibrarySource() == e.l.src, "library source '" << b.GetLibrarySource() << "'" ); REQ( b.GetLibraryDate() == e.l.date, "library date '" << b.GetLibraryDate() << "'" ); REQ( b.GetLibraryVersion() == e.l.fver, "library version " << b.GetLibraryVersion() );
    if( m.unit != "TNM" ) REQ( b.GetUnit() == ( m.unit == "THOU" ? IDF3::UNIT_THOU : IDF3::UNIT_MM ), "unit " << b.GetUnit() );
    NEAR( b.GetBoardThickness(), m.board.h * sc, 1e-9, "board thickness" );
    checkSec( b.GetBoardOutline(), m.board, sc, "board outline" ); REQ( b.GetBoardOutlinesSize() == m.board.loops.size(), "board outlines" );
    size_t no = 0; auto* oo = b.GetOtherOutlines();
    for( auto& x : m.secs ) if( x.kind == "OTHER_OUTLINE" )
    {
        ++no; auto i = oo->find( x.id ); REQ( i != oo->end(), "other outline '" << x.id << "' lost" ); REQ( i->second->GetOutlineIdentifier() == x.id, "identifier" );
        checkSec( i->second, x, sc, "other outline '" + x.id + "'" ); NEAR( i->second->GetThickness(), x.h * sc, 1e-9, "thickness of an other outline" ); REQ( i->second->GetSide() == layer( x.side ), "side of an other outline" );
    }
    REQ( oo->size() == no, oo->size() << " other outlines" );
    // drills
    vector<const Drill*> bd; std::map<string, vector<const Drill*> > cd; for( auto& d : m.drills ) if( d.ref == "BOARD" || d.ref == "PANEL" ) bd.push_back( &d ); else cd[d.ref].push_back( &d );
    auto checkDrills = [&]( const std::list<IDF_DRILL_DATA*>& h, const vector<const Drill*>& w, const string& what )
    {
        REQ( h.size() == w.size(), what << ": " << h.size() << " drills instead of " << w.size() ); size_t i = 0;
        for( auto* d : h )
        {
            const Drill& q = *w[i++]; NEAR( d->GetDrillDia(), q.d * sc, 1e-9, what + ": diameter" ); NEAR( d->GetDrillXPos(), q.x * sc, 1e-9, what + ": drill x" ); NEAR( d->GetDrillYPos(), q.y * sc, 1e-9, what + ": drill y" );
            REQ( d->GetDrillPlating() == ( q.pth ? IDF3::PTH : IDF3::NPTH ), what << ": plating" ); REQ( d->GetDrillHoleType() == q.type, what << ": hole type " << d->GetDrillHoleType() << " instead of " << q.type ); REQ( d->GetDrillRefDes() == q.ref, what << ": reference " << d->GetDrillRefDes() << " instead of " << q.ref );
        }
    };
    checkDrills( b.GetBoardDrills(), bd, "board" );
    // components
    std::map<string, vector<const Place*> > cp; vector<const Place*> anon; for( auto& p : m.places ) { if( e.nosub && !find( e.l, p.geom, p.part ) ) {} if( isNoRef( p.ref ) ) anon.push_back( &p ); else cp[p.ref].push_back( &p ); }
    auto* comps = b.GetComponents(); std::set<string> refs; for( auto& x : cp ) refs.insert( x.first ); for( auto& x : cd ) refs.insert( x.first ); for( auto& x : e.bare ) refs.insert( x );
    size_t na = 0;
    auto same = [&]( IDF3_COMPONENT* c, IDF3_COMP_OUTLINE_DATA* d, const Place& p, string& why )
    {
        std::ostringstream o; o.precision( 12 ); IDF3_COMP_OUTLINE* ol = d->GetOutline(); const Part* q = find( e.l, p.geom, p.part );
        if( !q && e.nosub ) { if( ol ) o << " has an outline"; }
        else if( !ol ) o << " has no outline"; else if( ol->GetGeomName() != p.geom || ol->GetPartName() != p.part ) o << " has outline '" << ol->GetGeomName() << "' '" << ol->GetPartName() << "'";
        double x, y, z, a, cx, cy, ca; IDF3::IDF_LAYER side; d->GetOffsets( x, y, z, a ); if( !c->GetPosition( cx, cy, ca, side ) ) o << " not positioned";
        bool bot = side == IDF3::LYR_BOTTOM; double px = bot ? cx - x : cx + x, py = cy + y, pa = bot ? ca - a : ca + a;
        if( side != layer( p.side ) ) o << " on side " << side;
        if( fabs( px - p.x * sc ) > 1e-9 ) o << " at x=" << px; if( fabs( py - p.y * sc ) > 1e-9 ) o << " at y=" << py; if( fabs( z - p.z * sc ) > 1e-9 ) o << " at z=" << z; if( fabs( pa - p.rot ) > 1e-9 ) o << " at angle " << pa;
        IDF3::IDF_PLACEMENT st = c->GetPlacement(), w = p.st == "PLACED" ? IDF3::PS_PLACED : p.st == "UNPLACED" ? IDF3::PS_UNPLACED : p.st == "MCAD" || ( p.st == "FIXED" && !e.mech ) ? IDF3::PS_MCAD : IDF3::PS_ECAD;
        if( st != w ) o << " status " << st << " instead of " << w; why = o.str(); return why.empty();
    };
    vector<const Place*> left = anon;
    for( auto& x : *comps )
    {
        IDF3_COMPONENT* c = x.second; REQ( c->GetRefDes() == x.first, "reference of a component" ); REQ( b.FindComponent( x.first ) == c, "FindComponent" );
        if( isNoRef( x.first ) && x.first != "NOREFDES" )     // "NOREFDES" itself collects the holes without reference
        {
            ++na; REQ( c->GetOutlinesSize() == 1, "anonymous component with " << c->GetOutlinesSize() << " outlines" ); bool ok = false; string why, w1;
            for( size_t i = 0; i < left.size() && !ok; ++i ) if( same( c, c->GetOutlinesData()->front(), *left[i], w1 ) ) { left.erase( left.begin() + i ); ok = true; } else why += w1 + " (" + str( *left[i] ) + ")\n";
            REQ( ok, "anonymous component matches no placement:\n" << why ); REQ( c->GetDrills()->empty(), "drills of an anonymous component" ); continue;
        }
        REQ( refs.erase( x.first ), "unexpected component " << x.first ); auto& pl = cp[x.first];
        checkDrills( *c->GetDrills(), cd[x.first], "component " + x.first );
        REQ( c->GetOutlinesSize() == pl.size(), "component " << x.first << " has " << c->GetOutlinesSize() << " outlines instead of " << pl.size() ); size_t i = 0;
        for( auto* d : *c->GetOutlinesData() ) { string why; REQ( same( c, d, *pl[i], why ), "component " << x.first << why << " instead of " << str( *pl[i] ) ); ++i; }
    }
    REQ( refs.empty(), "component " << *refs.begin() << " lost" ); REQ( na == anon.size(), na << " anonymous components instead of " << anon.size() );
    // library
    auto& co = b.GetComponentOutlines(); std::set<IDF3_COMP_OUTLINE*> seen;
    for( auto& q : e.l.parts )
    {
        IDF3_COMP_OUTLINE* o = NULL; for( auto& x : co ) if( x.second->GetGeomName() == q.geom && x.second->GetPartName() == q.part ) o = x.second;
        REQ( o, "part '" << q.geom << "' '" << q.part << "' lost" ); seen.insert( o ); REQ( b.GetComponentOutlineByID( o->GetUID() ) == o, "part not found by its ID" );
        string w = "part '" + q.geom + "' '" + q.part + "'"; REQ( o->GetComponentClass() == ( q.elec ? IDF3::COMP_ELEC : IDF3::COMP_MECH ), w << ": class" ); NEAR( o->GetThickness(), q.h * mm( q.unit ), 1e-9, w + ": height" );
        Sec s; s.com = q.com; s.loops = q.loops; checkSec( o, s, mm( q.unit ), w ); if( q.unit != "TNM" ) REQ( o->GetUnit() == ( q.unit == "THOU" ? IDF3::UNIT_THOU : IDF3::UNIT_MM ), w << ": unit" );
    }
    std::set<string> miss; if( !e.nosub ) for( auto& p : m.places ) if( !find( e.l, p.geom, p.part ) ) miss.insert( p.geom + "\n" + p.part );
    size_t subs = e.subs >= 0 ? (size_t)e.subs : miss.size(); REQ( co.size() == e.l.parts.size() + subs, co.size() << " parts instead of " << e.l.parts.size() << " and " << subs << " substitutes" );
}

// ---- written files against the model
double half( const string& u, int mmDigits ) { return u == "MM" ? 0.5 * pow( 10, -mmDigits ) : 0.05; }
struct Conv { string in, out; double k() const { return mm( in ) / mm( out ); } double tol( int d ) const { bool exact = in == out || ( out == "MM" && d >= 5 ); return exact ? 1e-7 : half( out, d ) + 1e-6; } };
bool same( const Rows& h, const Rows& w, const Conv& c, string& why )
{
    if( h.size() != w.size() ) { why = std::to_string( h.size() ) + " points instead of " + std::to_string( w.size() ); return false; }
    for( size_t i = 0; i < h.size(); ++i ) { Row x{ w[i].x * c.k(), w[i].y * c.k(), w[i].a }; if( fabs( h[i].x - x.x ) > c.tol( 5 ) || fabs( h[i].y - x.y ) > c.tol( 5 ) || fabs( h[i].a - x.a ) > 1e-7 ) { why = "point " + std::to_string( i ) + " is " + str( h[i] ) + " instead of " + str( x ); return false; } }
    return true;
}
void sameSec( const Sec& h, const Sec& w, const Conv& c )
{
    string what = w.kind + " '" + w.id + "'"; string why;
    REQ( h.kind == w.kind && h.id == w.id && h.owner == w.owner && h.side == w.side && h.hasH == w.hasH, what << " written as\n" << str( h ) << "instead of\n" << str( w ) );
    if( w.hasH ) NEAR( h.h, w.h * c.k(), c.tol( 5 ), what + ": height" );
    REQ( full( h.com ) == full( w.com ), what << ": comments written as\n" << str( h ) << "instead of\n" << str( w ) );
    REQ( h.loops.size() == w.loops.size(), what << ": " << h.loops.size() << " loops written instead of " << w.loops.size() );
    for( size_t i = 0; i < w.loops.size(); ++i ) { REQ( h.index[i] == w.index[i], what << ": loop " << i << " has index " << h.index[i] << " instead of " << w.index[i] ); REQ( same( h.loops[i], w.loops[i], c, why ), what << ", loop " << i << ": " << why ); }
}
void checkFiles( const Board& h, const Lib& hl, const Expect& e, const string& unit, bool force )
{
    const Board& m = e.b; Conv c{ m.unit, unit }; REQ( h.unit == unit, "written in " << h.unit << " instead of " << unit );
    REQ( h.name == ( m.name.empty() ? "BOARD WITH NO NAME" : m.name ), "written board name '" << h.name << "'" ); REQ( h.fver == m.fver + 1, "written board version " << h.fver ); REQ( hl.fver == e.l.fver + 1, "written library version " << hl.fver );
    REQ( h.src == e.source && hl.src == h.src, "written source '" << h.src << "'" );
    sameSec( h.board, m.board, c );
    std::map<string, vector<const Sec*> > a, b; auto key = []( const Sec& x ) { return x.kind + "\n" + x.id; };
    for( auto& x : h.secs ) a[key( x )].push_back( &x ); for( auto& x : m.secs ) if( !x.loops.empty() ) b[key( x )].push_back( &x );
    for( auto& x : b ) { auto& y = a[x.first]; REQ( y.size() == x.second.size(), y.size() << " sections " << x.first << " written instead of " << x.second.size() ); for( size_t i = 0; i < y.size(); ++i ) sameSec( *y[i], *x.second[i], c ); a.erase( x.first ); }
    REQ( a.empty(), "unexpected section " << a.begin()->first );
    // drills
    std::map<string, vector<const Drill*> > da, db; auto dk = []( const Drill& d ) { return low( d.ref ) == "noref" ? string( "NOREFDES" ) : d.ref; };
    for( auto& d : h.drills ) da[dk( d )].push_back( &d ); for( auto& d : m.drills ) db[dk( d )].push_back( &d );
    for( auto& x : db )
    {
        auto& y = da[x.first]; REQ( y.size() == x.second.size(), y.size() << " drills of " << x.first << " written instead of " << x.second.size() );
        for( size_t i = 0; i < y.size(); ++i ) { const Drill &p = *y[i], &q = *x.second[i]; REQ( fabs( p.d - q.d * c.k() ) <= c.tol( 3 ) && fabs( p.x - q.x * c.k() ) <= c.tol( 5 ) && fabs( p.y - q.y * c.k() ) <= c.tol( 5 ) && p.pth == q.pth && p.type == q.type && p.owner == q.owner, "drill written as " << str( p ) << " instead of " << str( q ) << " (" << m.unit << ")" ); }
        da.erase( x.first );
    }
    REQ( da.empty(), "unexpected drills of " << da.begin()->first ); if( h.hasDrills ) REQ( full( h.dcom ) == full( m.dcom ), "comments of the drills" );
    REQ( h.hasNotes == !m.notes.empty() && h.notes.size() == m.notes.size(), h.notes.size() << " notes written" ); if( h.hasNotes ) REQ( full( h.ncom ) == full( m.ncom ), "comments of the notes" );
    for( size_t i = 0; i < m.notes.size(); ++i ) { auto &p = h.notes[i], &q = m.notes[i]; REQ( fabs( p.x - q.x * c.k() ) <= c.tol( 5 ) && fabs( p.y - q.y * c.k() ) <= c.tol( 5 ) && fabs( p.h - q.h * c.k() ) <= c.tol( 5 ) && fabs( p.l - q.l * c.k() ) <= c.tol( 5 ) && p.t == q.t, "note written as " << str( p.x ) << " " << str( p.y ) << " " << str( p.h ) << " " << str( p.l ) << " '" << p.t << "' instead of " << str( q.x ) << " " << str( q.y ) << " " << str( q.h ) << " " << str( q.l ) << " '" << q.t << "'" ); }
    // placements
    std::map<string, vector<const Place*> > pa, pb; std::set<string> used; auto pk = []( const Place& p ) { return isNoRef( p.ref ) ? string( "NOREFDES" ) : p.ref; };
    for( auto& p : h.places ) pa[pk( p )].push_back( &p ); for( auto& p : m.places ) if( find( e.l, p.geom, p.part ) || !e.nosub ) { pb[pk( p )].push_back( &p ); used.insert( p.geom + "\n" + p.part ); }
    auto eq = [&]( const Place& p, const Place& q ) { string st = q.st == "FIXED" ? ( e.mech ? "ECAD" : "MCAD" ) : q.st; return p.geom == q.geom && p.part == q.part && p.side == q.side && p.st == st && fabs( p.x - q.x * c.k() ) <= c.tol( 5 ) && fabs( p.y - q.y * c.k() ) <= c.tol( 5 ) && fabs( p.z - q.z * c.k() ) <= c.tol( 3 ) && fabs( p.rot - q.rot ) < 1e-6; };
    for( auto& x : pb )
    {
        auto y = pa[x.first]; REQ( y.size() == x.second.size(), y.size() << " placements of " << x.first << " written instead of " << x.second.size() );
        for( size_t i = 0; i < x.second.size(); ++i )
        {
            size_t j = 0; if( x.first == "NOREFDES" ) while( j < y.size() && !eq( *y[j], *x.second[i] ) ) ++j;
            REQ( j < y.size() && eq( *y[j], *x.second[i] ), "placement " << str( *x.second[i] ) << " (" << m.unit << ") written as " << ( j < y.size() ? str( *y[j] ) : string( "something else" ) ) ); y.erase( y.begin() + j );
        }
        pa.erase( x.first );
    }
    REQ( pa.empty(), "unexpected placement of " << pa.begin()->first ); if( h.hasPlaces ) REQ( full( h.pcom ) == full( m.pcom ), "comments of the placements" );
    // library
    for( auto& p : hl.parts )
    {
        REQ( used.erase( p.geom + "\n" + p.part ), "unexpected or repeated part '" << p.geom << "' '" << p.part << "' in the library" ); const Part* q = find( e.l, p.geom, p.part );
        if( !q ) { REQ( p.loops.size() == 1, "no substitute outline" ); continue; }
        Conv k{ q->unit, force ? unit : q->unit == "TNM" ? "MM" : q->unit }; string why;
        REQ( p.elec == q->elec && p.unit == k.out && p.props == ( q->elec ? q->props : decltype( q->props )() ) && full( p.com ) == full( q->com ) && fabs( p.h - q->h * k.k() ) <= k.tol( 5 ), "part written as\n" << str( p ) << "instead of\n" << str( *q ) );
        REQ( p.loops.size() == q->loops.size(), "outline of a part" ); if( !q->loops.empty() ) { REQ( p.index == q->index, "index of the outline of part\n" << str( *q ) ); REQ( same( p.loops[0], q->loops[0], k, why ), "outline of part '" << p.geom << "' '" << p.part << "': " << why ); }
    }
    REQ( used.empty(), "part " << *used.begin() << " is missing in the library" );
}
string noDate( const string& t ) { std::istringstream i( t ); string l, o; while( std::getline( i, l ) ) { if( l.compare( 0, 10, "BOARD_FILE" ) == 0 || l.compare( 0, 12, "LIBRARY_FILE" ) == 0 ) l = "X"; else for( size_t p = 0; ( p = l.find( "-0.0", p ) ) != string::npos; ++p )
        { size_t q = p + 3; while( q < l.size() && l[q] == '0' ) ++q; if( ( p == 0 || l[p - 1] == ' ' ) && ( q == l.size() || l[q] == ' ' ) ) l.erase( p, 1 ); }   // a zero has no sign
        o += l + "\n"; } return o; }

void files( Src& s, Ctx& c )
{
    Expect e; e.b = genBoard( s, &e.l ); e.mech = s.flip(); e.nosub = s.chance( 1, 4 ); bool outMM = s.flip(), force = s.flip();
    for( auto& p : e.l.parts ) std::sort( p.props.begin(), p.props.end() );
    string t = emit( e.b, s ), tl = emit( e.l, s ), f = c.path( "a.emn" ), fl = c.path( "a.emp" ), g = c.path( "b.emn" ), gl = c.path( "b.emp" );
    c.desc = "-- board file\n" + t + "-- library file\n" + tl + strf( "-- read as %s CAD%s, written in %s%s\n", e.mech ? "mechanical" : "electrical", e.nosub ? " without substitutes" : "", outMM ? "mm" : "thou", force ? " (forced)" : "" );
    c.nontrivial = e.b.secs.size() + e.b.drills.size() + e.b.places.size() >= 3; c.label( e.b.ver == 2 ? "version 2" : "version 3" ); c.label( "unit " + e.b.unit ); c.label( "placements", (long)e.b.places.size() ); c.label( "loops", (long)e.b.board.loops.size() );
    writeFile( f, t ); writeFile( fl, tl ); Quiet q;
    auto CT = e.mech ? IDF3::CAD_MECH : IDF3::CAD_ELEC; BP b( new IDF3_BOARD( CT ) );
    REQ( b->ReadFile( f, e.nosub ), "a valid board is refused: " << b->GetError() ); checkMemory( *b, e );
    REQ( b->WriteFile( g, outMM, force ), "the board cannot be written: " << b->GetError() ); string w = readFile( g ), wl = readFile( gl );
    if( c.verbose ) c.desc += "-- written\n" + w + wl;
    string unit = outMM ? "MM" : "THOU"; Board h = parseBoard( w ); Lib hl = parseLib( wl ); checkFiles( h, hl, e, unit, force );
    // once more: what was written is read and written again
    if( s.flip() ) { b.reset( new IDF3_BOARD( CT ) ); } else b->Clear();
    REQ( b->ReadFile( g, e.nosub ), "the written board cannot be read: " << b->GetError() );
    if( h.name.empty() ) {} Expect e2; e2.b = h; e2.l = hl; e2.mech = e.mech; e2.nosub = e.nosub;
    checkMemory( *b, e2 );
    REQ( b->WriteFile( c.path( "c.emn" ), outMM, force ), "the board cannot be written again: " << b->GetError() );
    string w2 = readFile( c.path( "c.emn" ) ), wl2 = readFile( c.path( "c.emp" ) );
    REQ( noDate( w2 ) == noDate( w ), "the second board file differs:\n" << w2 << "-- from\n" << w ); REQ( noDate( wl2 ) == noDate( wl ), "the second library file differs:\n" << wl2 << "-- from\n" << wl );
}
// ---- a board built and changed through the interface
IDF_OUTLINE* outlineOf( const Rows& r, double sc )
{
    IDF_OUTLINE* o = new IDF_OUTLINE;
    for( size_t i = 1; i < r.size(); ++i )
    {
        IDF_POINT a, b; a.x = r[i - 1].x * sc; a.y = r[i - 1].y * sc; b.x = r[i].x * sc; b.y = r[i].y * sc;
        IDF_SEGMENT* g = r[i].a == 0 ? new IDF_SEGMENT( a, b ) : new IDF_SEGMENT( a, b, r[i].a, false ); if( !o->push( g ) ) { delete g; delete o; REQ( false, "a segment of a closed outline is refused" ); }
    }
    return o;
}
void api( Src& s, Ctx& c )
{
    Expect e; Board all = genBoard( s, &e.l ); all.ver = 3; bool thou = all.unit == "THOU"; if( all.unit == "TNM" ) { all.unit = "MM"; }
    for( auto& p : e.l.parts ) { std::sort( p.props.begin(), p.props.end() ); }
    Board& m = e.b; m = all; m.secs.clear(); m.drills.clear(); m.notes.clear(); m.places.clear(); m.hasDrills = m.hasNotes = m.hasPlaces = false; m.dcom.clear(); m.ncom.clear(); m.pcom.clear(); m.board.com.clear(); m.board.loops.clear(); m.board.index.clear(); m.board.owner = "UNOWNED"; m.fver = 0; m.src = ""; m.date = "";
    e.mech = s.flip(); bool outMM = s.flip(), force = s.flip(); double sc = mm( m.unit ); (void)thou;
    Quiet q; auto CT = e.mech ? IDF3::CAD_MECH : IDF3::CAD_ELEC; BP b( new IDF3_BOARD( CT ) ); string log;
    b->SetBoardName( m.name ); b->SetBoardThickness( m.board.h * sc );
    // parts come from files of their own; the board refers to a part only where a component uses it
    vector<IDF3_COMP_OUTLINE*> po;
    for( size_t i = 0; i < e.l.parts.size(); ++i )
    {
        Lib one; one.ver = 3; one.parts.push_back( e.l.parts[i] ); if( one.parts[0].unit == "TNM" ) one.parts[0].unit = e.l.parts[i].unit = "MM";
        string t = emit( one, s ); size_t k = low( t ).find( "end_header" ); k = t.find( '\n', k ); k = k == string::npos ? 0 : k + 1;
        string f = c.path( strf( "part%zu.idf", i ) ); writeFile( f, t.substr( k ) ); c.desc += "-- part file\n" + t.substr( k );
        IDF3_COMP_OUTLINE* o = b->GetComponentOutline( f ); REQ( o, "a part file cannot be read: " << b->GetError() ); po.push_back( o );
        REQ( b->GetComponentOutline( f ) == o, "a part file read twice gives another outline" );
        if( s.chance( 1, 4 ) ) { string f2 = c.path( strf( "copy%zu.idf", i ) ); writeFile( f2, t.substr( k ) ); REQ( b->GetComponentOutline( f2 ) == o, "a copy of a part gives another outline: " << b->GetError() ); }
    }
    struct CompM { string side, st; double x, y, a; vector<Place> out; vector<Drill> dr; }; std::map<string, CompM> comps; vector<Drill> bd; vector<Rows> slots; size_t loopAt = 0, drillAt = 0;
    IDF3::IDF_PLACEMENT PS[4] = { IDF3::PS_PLACED, IDF3::PS_UNPLACED, IDF3::PS_MCAD, IDF3::PS_ECAD }; const char* PN[4] = { "PLACED", "UNPLACED", "MCAD", "ECAD" };
    auto mine = [&]( const string& st ) { return st == "PLACED" || st == "UNPLACED" || st == ( e.mech ? "MCAD" : "ECAD" ); };
    auto R = [&]( double a, double z ) { return a + ( z - a ) * s.draw( 1000001 ) / 1e6; };
    auto coord = [&]() { return round( R( -60, 60 ) / ( m.unit == "MM" ? 1e-5 : 2.54e-3 ) ) * ( m.unit == "MM" ? 1e-5 : 0.1 ); };   // file units
    auto deg = [&]() { return s.flip() ? 90.0 * s.range( 0, 4 ) : round( R( 0, 360 ) * 1000 ) / 1000; };
    auto addLoop = [&]( const Rows& r ) { REQ( b->AddBoardOutline( outlineOf( r, sc ) ), "a board outline is refused: " << b->GetError() ); m.board.loops.push_back( r ); };
    if( !all.board.loops.empty() ) addLoop( all.board.loops[loopAt++] );
    int n = s.range( 3, 14 );
    for( int i = 0; i < n; ++i ) switch( s.weighted( { 4, 4, 5, 3, 2, 2, 2, 2, 2 } ) )
    {
    case 0: if( !m.board.loops.empty() && loopAt < all.board.loops.size() ) { log += "cutout\n"; addLoop( all.board.loops[loopAt++] ); } break;
    case 1:
        if( drillAt < all.drills.size() )
        {
            Drill d = all.drills[drillAt++]; d.ref = "BOARD"; log += "drill " + str( d ) + "\n"; auto own = owner( d.owner );
            REQ( b->AddBoardDrill( d.d * sc, d.x * sc, d.y * sc, d.pth ? IDF3::PTH : IDF3::NPTH, d.type, own ), "drill refused" ); bd.push_back( d );
        }
        break;
    case 2:
    {
        string ref = s.pick( vector<string>{ "R1", "U2", "J 3", "c4", "NOREFDES1", "~" } ); bool dup = comps.count( ref ); CompM k; k.side = s.flip() ? "TOP" : "BOTTOM"; int st = s.draw( 4 ); k.st = PN[st]; k.x = coord(); k.y = coord(); k.a = deg();
        IDF3_COMPONENT* p = new IDF3_COMPONENT( b.get() ); p->SetParent( b.get() ); REQ( p->SetRefDes( ref ), "reference refused" ); REQ( p->SetPosition( k.x * sc, k.y * sc, k.a, k.side == "TOP" ? IDF3::LYR_TOP : IDF3::LYR_BOTTOM ), "position refused" );
        REQ( p->SetPlacement( PS[st] ), "placement refused" ); log += "component " + ref + " " + k.side + " " + k.st + ( dup ? " (exists)\n" : "\n" );
        bool ok = b->AddComponent( p ); REQ( ok == !dup, "AddComponent gives " << ok << " for " << ref ); if( dup ) { delete p; break; } comps[ref] = k; REQ( b->FindComponent( ref ) == p, "the component is not found" );
        double x, y, a; IDF3::IDF_LAYER l; REQ( p->GetPosition( x, y, a, l ) && x == k.x * sc && y == k.y * sc && a == k.a && l == layer( k.side ) && p->GetPlacement() == PS[st], "position of the component" );
        break;
    }
    case 3:
        if( !comps.empty() && !po.empty() )
        {
            auto it = comps.begin(); std::advance( it, s.draw( comps.size() ) ); size_t j = s.draw( po.size() ); auto& k = it->second; IDF3_COMPONENT* p = b->FindComponent( it->first ); REQ( p, "component " << it->first << " is not found" );
            double x = coord(), y = coord(), z = round( R( -3, 3 ) * 10 ) / 10, a = deg(); if( s.flip() ) x = y = z = a = 0; bool six = s.flip(), bot = k.side == "BOTTOM"; if( !six && !mine( k.st ) ) x = y = z = a = 0;
            IDF3_COMP_OUTLINE_DATA* d = six ? new IDF3_COMP_OUTLINE_DATA( p, po[j], x * sc, y * sc, z * sc, a ) : new IDF3_COMP_OUTLINE_DATA( p, po[j] ); if( !six ) REQ( d->SetOffsets( x * sc, y * sc, z * sc, a ) == mine( k.st ), "SetOffsets" );
            REQ( p->AddOutlineData( d ), "outline refused" ); log += "outline of " + it->first + strf( " offset %g %g %g %g part %zu\n", x, y, z, a, j );
            Place w; w.geom = e.l.parts[j].geom; w.part = e.l.parts[j].part; w.ref = it->first; w.x = bot ? k.x - x : k.x + x; w.y = k.y + y; w.z = z; w.rot = bot ? k.a - a : k.a + a; w.side = k.side; w.st = k.st; k.out.push_back( w );
        }
        break;
    case 4:
        if( !comps.empty() && drillAt < all.drills.size() )
        {
            auto it = comps.begin(); std::advance( it, s.draw( comps.size() ) ); Drill d = all.drills[drillAt++]; d.ref = it->first; if( isNoRef( d.ref ) ) break;
            log += "drill " + str( d ) + "\n"; REQ( b->FindComponent( it->first )->AddDrill( d.d * sc, d.x * sc, d.y * sc, d.pth ? IDF3::PTH : IDF3::NPTH, d.type, owner( d.owner ) ), "drill refused" ); it->second.dr.push_back( d );
        }
        break;
    case 5:
        if( !comps.empty() )
        {
            size_t j = s.draw( comps.size() ); auto it = comps.begin(); std::advance( it, j ); bool may = mine( it->second.st ); log += "delete component " + it->first + "\n";
            bool ok = s.flip() ? b->DelComponent( j ) : b->DelComponent( b->FindComponent( it->first ) ); REQ( ok == may, "DelComponent gives " << ok << " for a component " << it->second.st ); if( ok ) { REQ( !b->FindComponent( it->first ), "deleted component is found" ); comps.erase( it ); }
        }
        break;
    case 6:
        if( !bd.empty() )
        {
            Drill d = s.pick( bd ); log += "delete drill " + str( d ) + "\n"; bool any = false; vector<Drill> keep;
            for( auto& x : bd ) { bool match = fabs( x.d - d.d ) * sc < 1e-7 && fabs( x.x - d.x ) * sc < 1e-7 && fabs( x.y - d.y ) * sc < 1e-7, may = x.owner == "UNOWNED" || x.owner == ( e.mech ? "MCAD" : "ECAD" ); if( match && may ) any = true; else keep.push_back( x ); }
            bool ok = b->DelBoardDrill( d.d * sc, d.x * sc, d.y * sc ); REQ( ok == any, "DelBoardDrill gives " << ok ); bd = keep;
        }
        break;
    case 7:
        if( m.board.loops.size() > 0 && slots.empty() )
        {
            size_t j = s.draw( m.board.loops.size() + 1 ); bool may = j < m.board.loops.size() && ( j > 0 || m.board.loops.size() == 1 ); log += strf( "delete outline %zu\n", j ); bool ok = b->DelBoardOutline( j );
            REQ( ok == may, "DelBoardOutline gives " << ok << " for " << j << " of " << m.board.loops.size() ); if( ok ) m.board.loops.erase( m.board.loops.begin() + j );
            if( m.board.loops.empty() ) loopAt = all.board.loops.size();
        }
        break;
    case 8:
        if( !m.board.loops.empty() )
        {
            double w = s.flip() ? s.range( 1, 40 ) : R( 0.1, 60 ), l = s.flip() ? s.range( 1, 40 ) : R( 0.1, 60 ), o = deg(), x = R( -50, 50 ), y = R( -50, 50 ); log += strf( "slot %.9g %.9g %.9g at %.9g %.9g\n", w, l, o, x, y );
            REQ( b->AddSlot( w, l, o, x, y ), "a slot is refused: " << b->GetError() ); double ca = cos( o * M_PI / 180 ), sa = sin( o * M_PI / 180 ); Rows r;
            auto pt = [&]( double u, double v, double a ) { r.push_back( Row{ x + u * ca - v * sa, y + u * sa + v * ca, a } ); }; pt( l / 2, -w / 2, 0 ); pt( -l / 2, -w / 2, 0 ); pt( -l / 2, w / 2, -180 ); pt( l / 2, w / 2, 0 ); pt( l / 2, -w / 2, -180 ); slots.push_back( r );
            for( auto& q : r ) { q.x /= sc; q.y /= sc; } m.board.loops.push_back( r );
        }
        break;
    }
    for( auto& d : bd ) m.drills.push_back( d );
    for( auto& x : comps ) { for( auto& d : x.second.dr ) m.drills.push_back( d ); for( auto& p : x.second.out ) m.places.push_back( p ); }
    for( size_t i = 0; i < m.board.loops.size(); ++i ) m.board.index.push_back( i );
    c.desc += log + strf( "-- %s CAD, unit %s, written in %s%s\n", e.mech ? "mechanical" : "electrical", m.unit.c_str(), outMM ? "mm" : "thou", force ? " (forced)" : "" ); c.nontrivial = m.places.size() + m.drills.size() + m.board.loops.size() >= 3; c.label( "slots", (long)slots.size() ); c.label( "placements", (long)m.places.size() );
    e.l.fver = 0; string g = c.path( "b.emn" ); REQ( b->WriteFile( g, outMM, force ), "the board cannot be written: " << b->GetError() ); string w = readFile( g ), wl = readFile( c.path( "b.emp" ) ); if( c.verbose ) c.desc += "-- written\n" + w + wl;
    string unit = outMM ? "MM" : "THOU"; Board h = parseBoard( w ); Lib hl = parseLib( wl );
    // the coordinates of slots are arbitrary numbers, hence rounded in the file
    { string why; Conv k{ "API", unit }; size_t first = m.board.loops.size(); for( size_t i = 0; i < m.board.loops.size() && i < h.board.loops.size(); ++i ) { bool slot = m.board.loops[i].size() == 5 && m.board.loops[i][2].a == -180 && m.board.loops[i][4].a == -180; if( !slot ) continue; Rows& have = h.board.loops[i]; Rows want = m.board.loops[i]; bool near = have.size() == 5; double f = mm( m.unit ) / mm( unit ), tol = outMM ? 6e-6 : 0.0501; for( size_t j = 0; near && j < 5; ++j ) near = fabs( have[j].x - want[j].x * f ) < tol && fabs( have[j].y - want[j].y * f ) < tol && fabs( have[j].a - want[j].a ) < 1e-6; REQ( near, "slot, loop " << i << ", is written as\n" << str( h.board ) << "\ninstead of\n" << str( m.board ) ); for( size_t j = 0; j < 5; ++j ) { have[j].x = want[j].x * f; have[j].y = want[j].y * f; } } (void)first; }
    checkFiles( h, hl, e, unit, force );
    Board back = parseBoard( w ); b.reset( new IDF3_BOARD( CT ) ); REQ( b->ReadFile( g ), "the written board cannot be read: " << b->GetError() ); Expect e2; e2.b = back; e2.l = hl; e2.mech = e.mech; checkMemory( *b, e2 );
}
// ---- a board read from a file, then changed through the interface
void edit( Src& s, Ctx& c )
{
    Expect e; e.b = genBoard( s, &e.l ); e.mech = s.flip(); e.nosub = s.chance( 1, 4 ); bool outMM = s.flip(), force = s.flip(); Board& m = e.b; const double sc = mm( m.unit );
    for( auto& p : e.l.parts ) std::sort( p.props.begin(), p.props.end() );
    string t = emit( m, s ), tl = emit( e.l, s ), f = c.path( "a.emn" ), log; writeFile( f, t ); writeFile( c.path( "a.emp" ), tl );
    c.desc = "-- board file\n" + t + "-- library file\n" + tl + strf( "-- read as %s CAD%s\n", e.mech ? "mechanical" : "electrical", e.nosub ? " without substitutes" : "" ); size_t head = c.desc.size();
    Quiet q; auto CT = e.mech ? IDF3::CAD_MECH : IDF3::CAD_ELEC; BP b( new IDF3_BOARD( CT ) ); REQ( b->ReadFile( f, e.nosub ), "a valid board is refused: " << b->GetError() ); checkMemory( *b, e );
    { std::set<string> miss; if( !e.nosub ) for( auto& p : m.places ) if( !find( e.l, p.geom, p.part ) ) miss.insert( p.geom + "\n" + p.part ); e.subs = (int)miss.size(); }
    auto own = [&]( const string& o ) { return o == "UNOWNED" || o == ( e.mech ? "MCAD" : "ECAD" ); };
    auto mine = [&]( const string& st ) { return st == "PLACED" || st == "UNPLACED" || st == ( e.mech ? "MCAD" : "ECAD" ); };
    auto G = [&]( double lim, double per ) { double v = s.flip() ? s.range( -(int)lim, (int)lim ) : ( s.draw( 2000001 ) / 1e6 - 1 ) * lim, k = m.unit == "MM" ? per : m.unit == "THOU" ? 10 : 1; return round( v / sc * k ) / k; };    // file units
    auto deg = [&]() { return s.flip() ? 90.0 * s.range( 0, 3 ) : s.range( -360000, 360000 ) / 1000.0; };
    const vector<string> owners = { "UNOWNED", "MCAD", "ECAD" }, words = { "new", "two words", "#x", "1 2", "a.b" }; const IDF3::IDF_PLACEMENT PS[4] = { IDF3::PS_PLACED, IDF3::PS_UNPLACED, IDF3::PS_MCAD, IDF3::PS_ECAD }; const char* PN[4] = { "PLACED", "UNPLACED", "MCAD", "ECAD" };
    auto placesOf = [&]( const string& r ) { vector<size_t> o; for( size_t i = 0; i < m.places.size(); ++i ) if( m.places[i].ref == r ) o.push_back( i ); return o; };
    auto drillsOf = [&]( const string& r ) { vector<size_t> o; for( size_t i = 0; i < m.drills.size(); ++i ) if( m.drills[i].ref == r ) o.push_back( i ); return o; };
    auto partOf = [&]( const Part& p ) { IDF3_COMP_OUTLINE* o = NULL; for( auto& x : b->GetComponentOutlines() ) if( x.second->GetGeomName() == p.geom && x.second->GetPartName() == p.part ) o = x.second; REQ( o, "part '" << p.geom << "' '" << p.part << "' lost" ); return o; };
    auto note = [&]( const string& l ) { log += l + "\n"; c.desc.resize( head ); c.desc += log; };
    std::set<string> newRefs; size_t changes = 0;
    // one change of an outline section: its loops, comments, owner and height
    auto changeSec = [&]( BOARD_OUTLINE* o, Sec& x, const string& what )
    {
        bool may = own( x.owner ); REQ( !o->IsSingle(), what << ": IsSingle" ); REQ( o->GetParent() == b.get(), what << ": the board of an outline" ); REQ( o->GetOutlines()->size() == x.loops.size(), what << ": number of outlines" );
        switch( s.weighted( { 4, 4, 3, 2, 1, 2, 2 } ) )
        {
        case 0:
        {
            Rows r = x.loops.empty() ? genRows( s, m.unit, g2::P{ 0, 0 }, 60, false ) : genRows( s, m.unit, g2::P{ (g2::LD)s.range( -25, 25 ), (g2::LD)s.range( -25, 25 ) }, s.range( 1, 8 ), true ); note( "add a loop to " + what );
            std::unique_ptr<IDF_OUTLINE> n( outlineOf( r, sc ) ); IDF_OUTLINE* raw = n.get(); bool viaBoard = o == b->GetBoardOutline() && s.flip(), ok = viaBoard ? b->AddBoardOutline( raw ) : o->AddOutline( raw ); REQ( ok == may, what << ": AddOutline gives " << ok << " for an outline of " << x.owner );
            if( ok ) { n.release(); x.loops.push_back( r ); x.index.push_back( (int)x.loops.size() - 1 ); ++changes; REQ( !o->AddOutline( raw ), what << ": the same outline is added twice" ); REQ( o->GetOutline( x.loops.size() - 1 ) == raw, what << ": an added outline is not the last" ); } break;
        }
        case 1:
        {
            size_t j = s.draw( (uint32_t)x.loops.size() + 1 ); bool ptr = s.flip() && j < x.loops.size(), brd = o == b->GetBoardOutline() && s.flip(), ok, want = j < x.loops.size() && ( j > 0 || x.loops.size() == 1 ); note( strf( "delete loop %zu of ", j ) + what );
            if( ptr ) { IDF_OUTLINE* g = o->GetOutline( j ); ok = brd ? b->DelBoardOutline( g ) : o->DelOutline( g ); if( ok ) { checkLoop( g, x.loops[j], sc, what + ": outline taken out" ); delete g; } }
            else ok = brd ? b->DelBoardOutline( j ) : o->DelOutline( j );
            REQ( ok == want, what << ": deleting loop " << j << " of " << x.loops.size() << " gives " << ok ); if( ok ) { ++changes; x.loops.erase( x.loops.begin() + j ); x.index.pop_back(); } break;
        }
        case 2:
        {
            vector<string> have( o->GetComments()->begin(), o->GetComments()->end() ); string w = s.pick( words ); x.com = full( x.com ); ++changes;
            for( size_t i = 0; i < have.size(); ++i ) REQ( o->GetComment( i ) && *o->GetComment( i ) == have[i], what << ": GetComment" ); REQ( !o->GetComment( have.size() ), what << ": a comment beyond the last" );
            switch( s.draw( 4 ) )
            {
            case 0: case 1: note( "comment on " + what + ": " + w ); o->AddComment( w ); x.com.push_back( w ); o->AddComment( "" ); break;
            case 2: { size_t j = s.draw( (uint32_t)have.size() + 1 ); note( strf( "delete comment %zu of ", j ) + what ); bool ok = o->DeleteComment( j ); REQ( ok == ( j < have.size() ), what << ": DeleteComment gives " << ok ); if( ok && x.com.size() == have.size() ) x.com.erase( x.com.begin() + j ); else if( ok ) { have.erase( have.begin() + j ); x.com = have; } break; }
            default: note( "clear the comments of " + what ); o->ClearComments(); x.com.clear();
            }
            break;
        }
        case 3: { string w = s.pick( owners ); note( what + " to " + w ); bool ok = o->SetOwner( owner( w ) ); REQ( ok == may, what << ": SetOwner gives " << ok << " for an outline of " << x.owner ); if( ok ) { if( m.ver == 3 || true ) x.owner = w; ++changes; } break; }
        case 4: { bool ok; note( "negative height of " + what ); ok = o->SetThickness( -1 ); REQ( !ok, what << ": a negative height is accepted" ); break; }
        case 5: { double h = round( ( 0.5 + s.draw( 96 ) / 10.0 ) / sc * ( m.unit == "MM" ? 1e5 : 10 ) ) / ( m.unit == "MM" ? 1e5 : 10 ); note( "height of " + what + " " + str( h ) ); bool brd = o == b->GetBoardOutline() && s.flip(), ok = brd ? b->SetBoardThickness( h * sc ) : o->SetThickness( h * sc ); REQ( ok == may, what << ": SetThickness gives " << ok << " for an outline of " << x.owner ); if( ok ) { x.h = h; ++changes; } break; }
        case 6: if( s.chance( 1, 3 ) && o == b->GetBoardOutline() ) { note( "clear " + what ); bool ok = o->Clear(); REQ( ok == may, what << ": Clear gives " << ok ); if( ok ) { x.loops.clear(); x.index.clear(); x.com.clear(); x.owner = "UNOWNED"; ++changes; } } break;
        }
    };
    vector<Sec*> others; for( auto& x : m.secs ) if( x.kind == "OTHER_OUTLINE" ) others.push_back( &x );
    auto otherOf = [&]( const Sec& x ) { auto* oo = b->GetOtherOutlines(); auto i = oo->find( x.id ); REQ( i != oo->end(), "other outline '" << x.id << "' lost" ); return i->second; };
    for( int n = s.range( 2, 14 ); n > 0; --n )
    {
        // named components with placements and those with holes
        vector<string> named, holed; { std::set<string> a, d; for( auto& p : m.places ) if( !isNoRef( p.ref ) ) a.insert( p.ref ); for( auto& x : m.drills ) if( x.ref != "BOARD" && x.ref != "PANEL" ) d.insert( x.ref ); named.assign( a.begin(), a.end() ); holed.assign( d.begin(), d.end() ); }
        switch( s.weighted( { 5, 5, 2, 3, 3, 4, 3, 3, 3, 2, 2, 2, 1 } ) )
        {
        case 0: changeSec( b->GetBoardOutline(), m.board, "the board outline" ); REQ( b->GetBoardOutlines()->size() == m.board.loops.size(), "GetBoardOutlines" ); break;
        case 1: if( !others.empty() ) { Sec& x = *s.pick( others ); changeSec( otherOf( x ), x, "other outline '" + x.id + "'" ); } break;
        case 2:
            if( !others.empty() )
            {
                Sec& x = *s.pick( others ); string w = s.flip() ? "TOP" : "BOTTOM"; note( "side of '" + x.id + "' " + w ); OTHER_OUTLINE* o = otherOf( x ); bool ok = o->SetSide( layer( w ) ); REQ( ok == own( x.owner ), "SetSide gives " << ok << " for an outline of " << x.owner ); if( ok ) { x.side = w; ++changes; }
            }
            break;
        case 3:
            if( !holed.empty() )
            {
                string r = s.pick( holed ); auto d = drillsOf( r ); auto pl = placesOf( r ); bool anon = isNoRef( r ) && r != "NOREFDES"; if( anon ) break; bool may = isNoRef( r ) || pl.empty() || mine( m.places[pl[0]].st ); size_t j = s.draw( (uint32_t)d.size() ); Drill w = m.drills[d[j]]; IDF3_COMPONENT* k = b->FindComponent( r ); REQ( k, "component " << r << " is not found" ); bool ok; vector<size_t> kill;
                note( "delete hole " + str( w ) );
                if( s.flip() ) { auto it = k->GetDrills()->begin(); std::advance( it, j ); ok = k->DelDrill( *it ); kill.push_back( d[j] ); }
                else
                {
                    bool vague = false; for( auto i : d ) { auto& x = m.drills[i]; double g = std::max( fabs( x.d - w.d ), hypot( x.x - w.x, x.y - w.y ) ) * sc; if( g < 1e-9 ) kill.push_back( i ); else if( g < 2e-5 ) vague = true; } if( vague ) break;
                    ok = k->DelDrill( w.d * sc, w.x * sc, w.y * sc );
                }
                REQ( ok == may, "DelDrill gives " << ok << " for component " << r ); if( ok ) { ++changes; for( size_t i = kill.size(); i > 0; --i ) m.drills.erase( m.drills.begin() + kill[i - 1] ); if( drillsOf( r ).empty() && ( pl.empty() || r == "NOREFDES" ) ) e.bare.insert( r ); }
            }
            break;
        case 4:
        {
            Drill d; d.d = round( ( 0.5 + s.draw( 46 ) / 10.0 ) / sc * ( m.unit == "MM" ? 1000 : 10 ) ) / ( m.unit == "MM" ? 1000 : 10 ); d.x = G( 60, 1e5 ); d.y = G( 60, 1e5 ); d.pth = s.flip(); d.owner = s.pick( owners ); d.type = s.pick( vector<string>{ "PIN", "VIA", "MTG", "TOOL", "pilot hole" } ); int how = (int)s.draw( 4 ); auto pl = d.pth ? IDF3::PTH : IDF3::NPTH; d.ref = how == 0 ? "BOARD" : how == 1 ? "PANEL" : how == 2 ? "Z9" : named.empty() ? "Z8" : s.pick( named );
            note( "add hole " + str( d ) ); std::unique_ptr<IDF_DRILL_DATA> p( new IDF_DRILL_DATA( d.d * sc, d.x * sc, d.y * sc, pl, d.ref, d.type, owner( d.owner ) ) ); IDF3_COMPONENT* k = b->FindComponent( d.ref ); IDF_DRILL_DATA* h;
            if( k && s.flip() ) { IDF_DRILL_DATA wrong( 1, 1, 1, pl, "other", d.type, IDF3::UNOWNED ); REQ( !k->AddDrill( &wrong ), "a hole of another component is accepted" ); h = k->AddDrill( p.get() ); } else h = b->AddDrill( p.get() );
            REQ( h == p.get(), "a hole is refused" ); p.release(); m.drills.push_back( d ); e.bare.erase( d.ref ); ++changes; break;
        }
        case 5:
            if( !named.empty() )
            {
                string r = s.pick( named ); auto pl = placesOf( r ); IDF3_COMPONENT* k = b->FindComponent( r ); REQ( k, "component " << r << " is not found" ); size_t j = s.draw( (uint32_t)pl.size() ); Place& p = m.places[pl[j]]; auto it = k->GetOutlinesData()->begin(); std::advance( it, j ); double cx, cy, ca; IDF3::IDF_LAYER side; REQ( k->GetPosition( cx, cy, ca, side ), "component without position" ); bool bot = side == IDF3::LYR_BOTTOM, may = mine( p.st );
                double x = G( 60, 1e5 ), y = G( 60, 1e5 ), z = G( 3, 1000 ), a = deg(); note( strf( "move outline %zu of ", j ) + r + strf( " to %.9g %.9g %.9g angle %.9g", x, y, z, a ) ); bool ok = ( *it )->SetOffsets( bot ? cx - x * sc : x * sc - cx, y * sc - cy, z * sc, bot ? ca - a : a - ca ); REQ( ok == may, "SetOffsets gives " << ok << " for a component " << p.st ); if( ok ) { p.x = x; p.y = y; p.z = z; p.rot = a; ++changes; }
                REQ( !k->SetPosition( 1, 2, 3, IDF3::LYR_TOP ), "a second position is accepted" );
            }
            break;
        case 6:
            if( !named.empty() && !e.l.parts.empty() )
            {
                string r = s.pick( named ); auto pl = placesOf( r ); IDF3_COMPONENT* k = b->FindComponent( r ); REQ( k, "component " << r << " is not found" ); size_t j = s.draw( (uint32_t)pl.size() ); Place& p = m.places[pl[j]]; auto it = k->GetOutlinesData()->begin(); std::advance( it, j ); auto& w = s.pick( e.l.parts ); note( strf( "outline %zu of ", j ) + r + " is part '" + w.geom + "' '" + w.part + "'" );
                bool ok = ( *it )->SetOutline( partOf( w ) ), may = mine( p.st ); REQ( ok == may, "SetOutline gives " << ok << " for a component " << p.st ); if( ok ) { p.geom = w.geom; p.part = w.part; ++changes; }
            }
            break;
        case 7:
            if( !named.empty() )
            {
                string r = s.pick( named ); auto pl = placesOf( r ); IDF3_COMPONENT* k = b->FindComponent( r ); REQ( k, "component " << r << " is not found" ); bool may = mine( m.places[pl[0]].st ), ok; size_t j = s.draw( (uint32_t)pl.size() + 1 ); note( strf( "delete outline %zu of ", j ) + r );
                if( j == pl.size() ) { REQ( !k->DeleteOutlineData( j ) && !k->DeleteOutlineData( (IDF3_COMP_OUTLINE_DATA*)NULL ), "an outline which does not exist is deleted" ); break; }
                if( pl.size() == 1 && drillsOf( r ).empty() && !s.chance( 1, 2 ) ) break;
                if( s.flip() ) ok = k->DeleteOutlineData( j ); else { auto it = k->GetOutlinesData()->begin(); std::advance( it, j ); ok = k->DeleteOutlineData( *it ); }
                REQ( ok == may, "DeleteOutlineData gives " << ok << " for a component " << m.places[pl[0]].st ); if( ok ) { ++changes; m.places.erase( m.places.begin() + pl[j] ); if( pl.size() == 1 && drillsOf( r ).empty() ) e.bare.insert( r ); }
            }
            break;
        case 8:
            if( !named.empty() )
            {
                string r = s.pick( named ); auto pl = placesOf( r ); IDF3_COMPONENT* k = b->FindComponent( r ); REQ( k, "component " << r << " is not found" ); int st = (int)s.draw( 4 ); note( "status of " + r + " " + PN[st] ); bool may = mine( m.places[pl[0]].st ), ok = k->SetPlacement( PS[st] ); REQ( ok == may, "SetPlacement gives " << ok << " for a component " << m.places[pl[0]].st );
                if( ok ) { ++changes; for( auto i : pl ) m.places[i].st = PN[st]; } REQ( !k->SetPlacement( IDF3::PS_INVALID ), "an invalid status is accepted" );
            }
            break;
        case 9:
            switch( s.draw( 5 ) )
            {
            case 0: m.name = s.pick( words ); b->SetBoardName( m.name ); break;
            case 1: { int v = s.range( -1, 50 ); bool ok = b->SetBoardVersion( v ); REQ( ok == ( v >= 0 ), "SetBoardVersion" ); if( ok ) m.fver = v; break; }
            case 2: { int v = s.range( -1, 50 ); bool ok = b->SetLibraryVersion( v ); REQ( ok == ( v >= 0 ), "SetLibraryVersion" ); if( ok ) e.l.fver = v; break; }
            case 3: { string w = s.pick( words ); b->SetIDFSource( w ); REQ( b->GetIDFSource() == w, "GetIDFSource" ); e.source = "Created by " + w; } break;
            default:
            {
                double a = s.range( -3, 3 ), v = b->GetUserScale(), x, y; REQ( b->SetUserScale( a ) == ( a != 0 ) && b->GetUserScale() == ( a != 0 ? a : v ), "user scale" ); int k = s.range( -1, 10 ), w = b->GetUserPrecision(); bool ok = k >= 1 && k <= 8; REQ( b->SetUserPrecision( k ) == ok && b->GetUserPrecision() == ( ok ? k : w ), "user precision" );
                b->SetUserOffset( a, 2 * a ); b->GetUserOffset( x, y ); REQ( x == a && y == 2 * a, "user offset" );
            }
            }
            note( "board name '" + m.name + "', source '" + e.source + strf( "', versions %d %d", m.fver, e.l.fver ) ); break;
        case 10: { string r = b->GetNewRefDes(); note( "new reference " + r ); REQ( newRefs.insert( r ).second && !b->FindComponent( r ), "the new reference " << r << " is in use" ); break; }
        case 11:
            if( !named.empty() )
            {
                string r = s.pick( named ); auto pl = placesOf( r ); bool may = mine( m.places[pl[0]].st ); note( "delete component " + r ); bool ok = b->DelComponent( b->FindComponent( r ) ); REQ( ok == may, "DelComponent gives " << ok << " for a component " << m.places[pl[0]].st );
                if( ok ) { ++changes; for( size_t i = pl.size(); i > 0; --i ) m.places.erase( m.places.begin() + pl[i - 1] ); auto d = drillsOf( r ); for( size_t i = d.size(); i > 0; --i ) m.drills.erase( m.drills.begin() + d[i - 1] ); }
            }
            break;
        case 12:
        {
            // sections and notes which do not belong to the board follow the same rules
            string o = s.pick( owners ); bool may = own( o ), ok; const IDF3::IDF_LAYER LY[6] = { IDF3::LYR_TOP, IDF3::LYR_BOTTOM, IDF3::LYR_BOTH, IDF3::LYR_INNER, IDF3::LYR_ALL, IDF3::LYR_INVALID }; int li = (int)s.draw( 6 ); IDF3::IDF_LAYER ly = LY[li], none = IDF3::LYR_INVALID; bool keep = s.flip(); double h = s.range( -2, 20 ); note( "separate sections of " + o + strf( ", layer %d height %g", li, h ) );
            std::unique_ptr<ROUTE_OUTLINE> r( keep ? new ROUTE_KO_OUTLINE( b.get() ) : new ROUTE_OUTLINE( b.get() ) ); std::unique_ptr<PLACE_OUTLINE> p( keep ? new PLACE_KO_OUTLINE( b.get() ) : new PLACE_OUTLINE( b.get() ) ); GROUP_OUTLINE gr( b.get() ); VIA_KO_OUTLINE v( b.get() ); ROUTE_OUTLINE lost( NULL ); BOARD_OUTLINE* all[4] = { r.get(), p.get(), &gr, &v };
            const IDF3::OUTLINE_TYPE ty[4] = { keep ? IDF3::OTLN_ROUTE_KEEPOUT : IDF3::OTLN_ROUTE, keep ? IDF3::OTLN_PLACE_KEEPOUT : IDF3::OTLN_PLACE, IDF3::OTLN_GROUP_PLACE, IDF3::OTLN_VIA_KEEPOUT };
            for( int i = 0; i < 4; ++i ) { REQ( all[i]->IsSingle() && all[i]->GetOutlineType() == ty[i] && all[i]->GetParent() == b.get() && all[i]->GetOwner() == IDF3::UNOWNED && all[i]->OutlinesSize() == 0, "new section, kind " << i ); REQ( all[i]->SetOwner( owner( o ) ) && all[i]->GetOwner() == owner( o ), "SetOwner of a new section" ); REQ( all[i]->SetOwner( owner( o ) ) == may, "SetOwner of a section of " << o ); Rows x = genRows( s, "MM", g2::P{ 0, 0 }, 5, false, 0 ); std::unique_ptr<IDF_OUTLINE> g( outlineOf( x, 1 ) ); if( all[i]->AddOutline( g.get() ) ) { REQ( may, "a loop is added to a section of " << o ); g.release(); } else REQ( !may, "no loop can be added to a section of " << o ); }
            REQ( !lost.SetOwner( IDF3::MCAD ) && !lost.SetLayers( ly ), "a section without a board is changed" );
            ok = r->SetLayers( ly ); REQ( ok == may && r->GetLayers() == ( ok ? ly : none ), "layers of a routing section" ); ok = p->SetSide( ly ); REQ( ok == ( may && li < 3 ) && p->GetSide() == ( ok ? ly : none ), "side of a placement section" ); ok = gr.SetSide( ly ); REQ( ok == ( may && li < 3 ) && gr.GetSide() == ( ok ? ly : none ), "side of a group" ); string w = s.pick( words ); ok = gr.SetGroupName( w ); REQ( ok == may && gr.GetGroupName() == ( ok ? w : "" ), "name of a group" );
            ok = p->SetMaxHeight( h ); REQ( ok == ( may && h >= 0 ) && ( !ok || p->GetMaxHeight() == h ), "height of a placement section" ); for( auto* x : all ) { size_t n0 = x->OutlinesSize(); ok = x->Clear(); REQ( ok == may && x->OutlinesSize() == ( ok ? 0 : n0 ) && x->GetOwner() == ( ok ? IDF3::UNOWNED : owner( o ) ), "Clear of a section" ); }
            IDF_NOTE n1; double x, y; n1.SetText( w ); n1.SetPosition( h, 2 * h ); n1.SetSize( 3, 4 ); n1.GetPosition( x, y ); REQ( n1.GetText() == w && x == h && y == 2 * h, "position of a note" ); n1.GetSize( x, y ); REQ( x == 3 && y == 4, "size of a note" ); break;
        }
        }
    }
    checkMemory( *b, e );
    // changes of the names by which the board finds its parts and outlines
    for( int n = s.weighted( { 2, 2, 1 } ); n > 0; --n )
    {
        if( s.flip() && !others.empty() )
        {
            size_t i = s.draw( (uint32_t)others.size() ); Sec& x = *others[i]; OTHER_OUTLINE* o = otherOf( x ); bool may = own( x.owner ), ok; others.erase( others.begin() + i );
            if( s.flip() ) { note( "clear '" + x.id + "'" ); ok = o->Clear(); if( ok ) { x.loops.clear(); x.com.clear(); } } else { note( "rename '" + x.id + "'" ); ok = o->SetOutlineIdentifier( strf( "renamed %d", n ) ); if( ok ) x.id = strf( "renamed %d", n ); }
            REQ( ok == may, "changing an outline of " << x.owner << " gives " << ok ); changes += ok;
        }
        else if( !e.l.parts.empty() )
        {
            Part& p = e.l.parts[s.draw( (uint32_t)e.l.parts.size() )]; IDF3_COMP_OUTLINE* o = partOf( p ); string w = strf( "part%d", n ); ++changes; double ps = mm( p.unit );
            switch( s.draw( 5 ) )
            {
            case 0: note( "rename part '" + p.geom + "' '" + p.part + "'" ); { bool g = s.flip(); string a = p.geom, z = p.part; if( g ) { o->SetGeomName( w ); p.geom = w; } else { o->SetPartName( w ); p.part = w; } for( auto& x : m.places ) if( x.geom == a && x.part == z ) { x.geom = p.geom; x.part = p.part; } REQ( o->GetGeomName() == p.geom && o->GetPartName() == p.part && o->GetUID() == p.geom + "_" + p.part, "name of a part" ); } break;
            case 1: { bool el = s.flip(); note( "class of part '" + p.geom + "' '" + p.part + "'" ); REQ( o->SetComponentClass( el ? IDF3::COMP_ELEC : IDF3::COMP_MECH ), "class refused" ); REQ( !o->SetComponentClass( IDF3::COMP_INVALID ), "an invalid class is accepted" ); p.elec = el; break; }
            case 2: { double v = s.range( 1, 500 ); note( "height of part '" + p.geom + "' '" + p.part + "'" + strf( " %g", v ) ); REQ( o->SetThickness( v * ps ), "height refused" ); p.h = v; break; }
            case 3: note( "comment on part '" + p.geom + "' '" + p.part + "'" ); o->AddComment( "added" ); p.com.push_back( "added" ); break;
            default:
                if( p.loops.empty() ) { Rows r = genRows( s, p.unit, g2::P{ 0, 0 }, s.range( 2, 12 ), false ); note( "outline for part '" + p.geom + "' '" + p.part + "'" ); std::unique_ptr<IDF_OUTLINE> g( outlineOf( r, ps ) ); REQ( o->AddOutline( g.get() ), "outline refused" ); g.release(); p.loops.push_back( r ); p.index.push_back( 0 ); }
                else { note( "no outline for part '" + p.geom + "' '" + p.part + "'" ); REQ( o->DelOutline( (size_t)0 ), "the outline of a part cannot be deleted" ); p.loops.clear(); p.index.clear(); }
            }
        }
    }
    note( strf( "write in %s%s", outMM ? "mm" : "thou", force ? " (forced)" : "" ) ); c.nontrivial = changes >= 3; c.label( "changes", (long)changes );
    string g = c.path( "b.emn" ); REQ( b->WriteFile( g, outMM, force ), "the board cannot be written: " << b->GetError() ); string w = readFile( g ), wl = readFile( c.path( "b.emp" ) ); if( c.verbose ) c.desc += "-- written\n" + w + wl;
    string unit = outMM ? "MM" : "THOU"; Board h = parseBoard( w ); Lib hl = parseLib( wl ); checkFiles( h, hl, e, unit, force );
    b.reset( new IDF3_BOARD( CT ) ); REQ( b->ReadFile( g, e.nosub ), "the written board cannot be read: " << b->GetError() ); Expect e2; e2.b = h; e2.l = hl; e2.mech = e.mech; e2.nosub = e.nosub; checkMemory( *b, e2 );
}
// ---- damaged files
string damage( Src& s, string t, string& log )
{
    static const vector<string> nasty = { "nan", "inf", "-inf", "1e400", "-1e400", "1e300", "-1", "0", "360", "-360", "720", "1e-300", "0x10", "\"", "\"\"", "\"open", "99999999999999999999", "-2147483649", "TOP", "BOTTOM", "BOTH", "ALL", "INNER", "MM", "THOU", "TNM", "ECAD", "MCAD", "UNOWNED", "PLACED", "FIXED", "BOARD", "PANEL", "NOREFDES", "PTH", "NPTH", "PROP", "#", ".", ".END_", "\xff\xfe", "\xc3\xa9", ",", "1,5", "--1", "1e", "1.5.2", "abc", "0 0 0", "3.0", "2.0", "1.0", "4.0" };
    static const vector<string> heads = { ".HEADER", ".END_HEADER", ".BOARD_OUTLINE", ".END_BOARD_OUTLINE", ".PANEL_OUTLINE", ".OTHER_OUTLINE", ".END_OTHER_OUTLINE", ".ROUTE_OUTLINE", ".PLACE_OUTLINE", ".ROUTE_KEEPOUT", ".VIA_KEEPOUT", ".PLACE_KEEPOUT", ".PLACE_REGION", ".DRILLED_HOLES", ".END_DRILLED_HOLES", ".NOTES", ".END_NOTES", ".PLACEMENT", ".END_PLACEMENT", ".ELECTRICAL", ".END_ELECTRICAL", ".MECHANICAL", ".END_MECHANICAL", ".UNKNOWN", "# comment", "" };
    auto lines = [&]() { vector<string> v; size_t p = 0; while( p < t.size() ) { size_t e = t.find( '\n', p ); if( e == string::npos ) e = t.size(); v.push_back( t.substr( p, e - p ) ); p = e + 1; } return v; };
    auto join = [&]( const vector<string>& v ) { t.clear(); for( auto& x : v ) t += x + "\n"; };
    for( int n = s.weighted( { 0, 6, 2, 1, 1 } ); n > 0 && !t.empty(); --n ) switch( s.weighted( { 3, 8, 3, 3, 3, 3, 2, 2, 3, 1 } ) )
    {
    case 0: { size_t k = s.draw( t.size() ); t.resize( k ); log += strf( "cut at %zu\n", k ); break; }
    case 1:
    {
        auto v = lines(); size_t i = s.draw( v.size() ); std::istringstream is( v[i] ); vector<string> w; string x; while( is >> x ) w.push_back( x ); if( w.empty() ) break;
        size_t j = s.draw( w.size() ); string y = s.pick( nasty ); log += "line " + std::to_string( i ) + ": '" + w[j] + "' becomes '" + y + "'\n"; w[j] = y; v[i].clear(); for( auto& z : w ) v[i] += z + " "; join( v ); break;
    }
    case 2: { auto v = lines(); size_t i = s.draw( v.size() ); log += strf( "line %zu removed\n", i ); v.erase( v.begin() + i ); join( v ); break; }
    case 3: { auto v = lines(); size_t i = s.draw( v.size() ); log += strf( "line %zu twice\n", i ); v.insert( v.begin() + i, v[i] ); join( v ); break; }
    case 4: { auto v = lines(); size_t i = s.draw( v.size() ), j = s.draw( v.size() ); log += strf( "lines %zu and %zu exchanged\n", i, j ); std::swap( v[i], v[j] ); join( v ); break; }
    case 5: { auto v = lines(); size_t i = s.draw( v.size() + 1 ); string y = s.pick( heads ); log += "line " + std::to_string( i ) + " inserted: " + y + "\n"; v.insert( v.begin() + i, y ); join( v ); break; }
    case 6: { auto v = lines(); size_t i = s.draw( v.size() ); std::istringstream is( v[i] ); vector<string> w; string x; while( is >> x ) w.push_back( x ); if( w.empty() ) break; size_t j = s.draw( w.size() ); log += strf( "line %zu: token %zu removed\n", i, j ); w.erase( w.begin() + j ); v[i].clear(); for( auto& z : w ) v[i] += z + " "; join( v ); break; }
    case 7: { size_t k = s.draw( t.size() ); char ch = (char)s.draw( 256 ); log += strf( "byte %zu becomes %02x\n", k, (unsigned char)ch ); t[k] = ch; break; }
    case 8: { auto v = lines(); size_t i = s.draw( v.size() ), m = s.range( 1, 5 ), j = s.draw( v.size() + 1 ); vector<string> x( v.begin() + i, v.begin() + std::min( v.size(), i + m ) ); log += strf( "lines %zu to %zu copied to %zu\n", i, i + m - 1, j ); v.insert( v.begin() + j, x.begin(), x.end() ); join( v ); break; }
    default: { size_t k = s.draw( t.size() ); string y( s.pick( vector<size_t>{ 200, 3000, 70000 } ), s.pick( vector<char>{ 'x', '9', ' ', '"', '.' } ) ); log += strf( "%zu bytes '%c' inserted at %zu\n", y.size(), y[0], k ); t.insert( k, y ); break; }
    }
    return t;
}
// quotes within a word: a name which has no quoted form
bool oddQuotes( const string& t )
{
    std::istringstream is( t ); string l; auto sp = []( char ch ) { return isspace( (unsigned char)ch ); };
    while( std::getline( is, l ) ) for( size_t i = 0; i < l.size(); )
    {
        if( sp( l[i] ) ) { ++i; continue; } bool q = l[i] == '"'; size_t j = i + 1;
        if( q ) { while( j < l.size() && l[j] != '"' ) ++j; if( j >= l.size() ) return true; ++j; if( j < l.size() && !sp( l[j] ) ) return true; } else for( ; j < l.size() && !sp( l[j] ); ++j ) if( l[j] == '"' ) return true;
        i = j;
    }
    return false;
}
void checkEmpty( IDF3_BOARD& b, const string& when )
{
    REQ( b.GetBoardOutline()->OutlinesSize() == 0 && b.GetBoardOutlinesSize() == 0, "outlines of the board " << when ); REQ( b.GetBoardOutline()->GetComments()->empty(), "comments of the board outline " << when );
    REQ( b.GetOtherOutlines()->empty(), "other outlines " << when ); REQ( b.GetBoardDrills().empty(), "drills " << when ); REQ( b.GetComponents()->empty() && b.GetComponentsSize() == 0, "components " << when ); REQ( b.GetComponentOutlines().empty(), "parts " << when );
    REQ( b.GetBoardSource().empty() && b.GetLibrarySource().empty() && b.GetBoardDate().empty() && b.GetLibraryDate().empty() && b.GetBoardVersion() == 0 && b.GetLibraryVersion() == 0, "header data " << when );
}
void damaged( Src& s, Ctx& c )
{
    Expect e; e.b = genBoard( s, &e.l ); e.mech = s.flip(); for( auto& p : e.l.parts ) std::sort( p.props.begin(), p.props.end() );
    string t = emit( e.b, s ), tl = emit( e.l, s ), log; string bad = t, badl = tl; int which = s.weighted( { 3, 2, 1 } ); if( which != 1 ) { log += "board:\n"; bad = damage( s, t, log ); } if( which != 0 ) { log += "library:\n"; badl = damage( s, tl, log ); }
    string f = c.path( "bad.emn" ), fl = c.path( "bad.emp" ), g = c.path( "good.emn" ), gl = c.path( "good.emp" ); writeFile( f, bad ); writeFile( fl, badl ); writeFile( g, t ); writeFile( gl, tl );
    c.desc = "-- damage\n" + log + "-- board file\n" + bad.substr( 0, 20000 ) + "\n-- library file\n" + badl.substr( 0, 20000 ) + strf( "\n-- read as %s CAD\n", e.mech ? "mechanical" : "electrical" );
    Quiet q; auto CT = e.mech ? IDF3::CAD_MECH : IDF3::CAD_ELEC; BP b( new IDF3_BOARD( CT ) ); bool pre = s.flip();
    if( pre ) { REQ( b->ReadFile( g ), "a valid board is refused: " << b->GetError() ); b->Clear(); checkEmpty( *b, "after Clear()" ); }
    bool ok = b->ReadFile( f, s.chance( 1, 4 ) ); c.label( ok ? "accepted" : "refused" ); c.nontrivial = bad != t || badl != tl;
    if( !ok ) { REQ( !b->GetError().empty(), "refused without a message" ); checkEmpty( *b, "after a refused file" ); }
    else
    {
        bool outMM = s.flip();
        if( s.flip() )
        {
            bool wok = b->WriteFile( c.path( "w.emn" ), outMM ); c.label( wok ? "written" : "not written" ); if( wok && c.verbose ) c.desc += "-- written\n" + readFile( c.path( "w.emn" ) ) + readFile( c.path( "w.emp" ) );
            if( wok && !oddQuotes( bad ) && !oddQuotes( badl ) ) { b->Clear(); REQ( b->ReadFile( c.path( "w.emn" ) ), "the board read from a damaged file was written, but cannot be read back: " << b->GetError() ); }
        }
        b->Clear(); checkEmpty( *b, "after Clear()" );
    }
    if( s.chance( 1, 4 ) )      // a part of the damaged library on its own
    {
        size_t k = low( badl ).find( "end_header" ); k = k == string::npos ? string::npos : badl.find( '\n', k ); string pf = c.path( "part.idf" ); writeFile( pf, k == string::npos ? badl : badl.substr( k + 1 ) );
        auto* o = b->GetComponentOutline( pf ); c.label( o ? "part accepted" : "part refused" ); REQ( o || !b->GetError().empty(), "part refused without a message" ); REQ( b->GetComponentOutlines().size() == ( o ? 1 : 0 ), "number of parts after reading one" ); REQ( b->GetComponentOutline( pf ) == o, "a part file read twice gives another result" );
        size_t l = leak( [&]() { IDF3_BOARD* x = new IDF3_BOARD( CT ); x->GetComponentOutline( pf ); delete x; } ); REQ( l == 0, l << " bytes are lost by reading a part file" ); b->Clear(); checkEmpty( *b, "after Clear()" );
    }
    if( s.chance( 1, 3 ) ) { size_t l = leak( [&]() { IDF3_BOARD* x = new IDF3_BOARD( CT ); x->ReadFile( f ); delete x; } ); REQ( l == 0, l << " bytes are lost by reading a file which is " << ( ok ? "accepted" : "refused" ) ); }
    if( s.flip() ) b->Clear();
    REQ( b->ReadFile( g ), "after a damaged file a valid board is refused: " << b->GetError() ); checkMemory( *b, e );
    REQ( b->WriteFile( c.path( "x.emn" ), true ), "the board cannot be written" ); string w = readFile( c.path( "x.emn" ) ), wl = readFile( c.path( "x.emp" ) ); checkFiles( parseBoard( w ), parseLib( wl ), e, "MM", false );
}
}
PROPERTY( "C16", "files", "board with three or more sections, drills and placements", 40000, 1500000, files );
PROPERTY( "C16", "api", "board with three or more loops, drills and placements after the last change", 30000, 1000000, api );
PROPERTY( "C16", "edit", "three or more changes were accepted", 25000, 1000000, edit );
PROPERTY( "C17", "damaged", "the file differs from a valid one", 40000, 1000000, damaged );
