#include "idfmodel.h"
#include <cstdlib>
#include <cstring>
#include <algorithm>
namespace idf
{
using std::string; using std::vector;
string str( double v ) { if( v == 0 ) v = 0; char b[64]; snprintf( b, sizeof b, "%.12g", v ); return b; }
string str( const Row& r ) { return str( r.x ) + " " + str( r.y ) + " " + str( r.a ); }
static string rowsStr( const vector<Rows>& l ) { string o; for( size_t i = 0; i < l.size(); ++i ) for( auto& r : l[i] ) o += "  " + str( r ) + "\n"; return o; }
string str( const Sec& x ) { string o = x.kind + " " + x.owner + " '" + x.id + "' " + ( x.hasH ? str( x.h ) : "-" ) + " " + x.side + "\n"; for( auto& c : x.com ) o = "# " + c + "\n" + o; return o + rowsStr( x.loops ); }
string str( const Place& p ) { return "'" + p.geom + "' '" + p.part + "' '" + p.ref + "' " + str( p.x ) + " " + str( p.y ) + " " + str( p.z ) + " " + str( p.rot ) + " " + p.side + " " + p.st; }
string str( const Drill& d ) { return str( d.d ) + " " + str( d.x ) + " " + str( d.y ) + ( d.pth ? " PTH '" : " NPTH '" ) + d.ref + "' '" + d.type + "' " + d.owner; }
string str( const Part& p ) { string o = string( p.elec ? "ELECTRICAL" : "MECHANICAL" ) + " '" + p.geom + "' '" + p.part + "' " + p.unit + " " + str( p.h ) + "\n"; for( auto& c : p.com ) o = "# " + c + "\n" + o; for( auto& q : p.props ) o += "  PROP '" + q.first + "' '" + q.second + "'\n"; return o + rowsStr( p.loops ); }

// ---- writing
namespace
{
struct Out
{
    Src& s; string t, nl; bool loose;
    explicit Out( Src& x ) : s( x ) { nl = s.chance( 1, 4 ) ? "\r\n" : "\n"; loose = s.chance( 1, 2 ); }
    string sp() { if( !loose || !s.chance( 1, 6 ) ) return " "; return s.flip() ? "  " : "\t"; }
    string key( string k ) { if( loose && s.chance( 1, 8 ) ) { int m = s.range( 0, 2 ); for( size_t i = 0; i < k.size(); ++i ) if( m == 0 || ( m == 1 && ( i & 1 ) ) || ( m == 2 && i ) ) k[i] = tolower( k[i] ); } return k; }
    string text( const string& v )
    {
        bool must = v.empty() || v[0] == '.' || v[0] == '#'; for( char c : v ) if( isspace( (unsigned char)c ) ) must = true;
        if( must || !loose || s.flip() ) return "\"" + v + "\""; return v;
    }
    string num( double v )
    {
        string o = str( v ); if( !loose ) return o;
        switch( s.draw( 10 ) )
        {
        case 7: if( o.find( '.' ) == string::npos && o.find( 'e' ) == string::npos ) o += "."; break;
        case 8: if( o.find( '.' ) == string::npos && o.find( 'e' ) == string::npos ) o += ".000"; else if( o.find( 'e' ) == string::npos ) o += "0"; break;
        case 9: if( v >= 0 ) o = "+" + o; else if( o.compare( 0, 3, "-0." ) == 0 ) o = "-" + o.substr( 2 ); break;
        default: ;
        }
        return o;
    }
    void line( const vector<string>& f )
    {
        if( loose && s.chance( 1, 12 ) ) t += s.flip() ? nl : "  " + nl;
        string o; for( size_t i = 0; i < f.size(); ++i ) { if( i ) o += sp(); o += f[i]; }
        if( loose && s.chance( 1, 12 ) ) o = "  " + o; if( loose && s.chance( 1, 12 ) ) o += " ";
        t += o + nl;
    }
    void comments( const vector<string>& c ) { for( auto& k : c ) t += "#" + string( loose && s.chance( 1, 3 ) ? "" : " " ) + k + nl; }
    void loops( const vector<Rows>& l, const vector<int>& ix )
    {
        for( size_t i = 0; i < l.size(); ++i ) for( auto& r : l[i] ) line( { std::to_string( ix[i] ), num( r.x ), num( r.y ), num( r.a ) } );
    }
    string done() { if( loose && s.chance( 1, 4 ) && !t.empty() ) { t.resize( t.size() - nl.size() ); } return t; }
};
void sec( Out& o, const Sec& x, int ver )
{
    o.comments( x.com ); string k = "." + x.kind;
    if( ver == 2 ) o.line( { o.key( k ) } ); else if( x.owner == "UNOWNED" && o.loose && o.s.chance( 1, 4 ) ) o.line( { o.key( k ) } ); else o.line( { o.key( k ), o.key( x.owner ) } );
    if( x.kind == "BOARD_OUTLINE" ) o.line( { o.num( x.h ) } );
    else if( x.kind == "OTHER_OUTLINE" ) { if( ver == 2 ) o.line( { o.text( x.id ), o.num( x.h ) } ); else o.line( { o.text( x.id ), o.num( x.h ), o.key( x.side ) } ); }
    else if( x.kind == "ROUTE_OUTLINE" || x.kind == "ROUTE_KEEPOUT" ) { if( ver == 3 || x.kind == "ROUTE_KEEPOUT" ) o.line( { o.key( x.side ) } ); }
    else if( x.kind == "PLACE_OUTLINE" || x.kind == "PLACE_KEEPOUT" ) { if( ver == 3 || x.kind == "PLACE_KEEPOUT" ) { if( x.hasH ) o.line( { o.key( x.side ), o.num( x.h ) } ); else o.line( { o.key( x.side ) } ); } }
    else if( x.kind == "PLACE_REGION" ) o.line( { o.key( x.side ), o.text( x.id ) } );
    o.loops( x.loops, x.index );
    o.line( { o.key( ".END_" + x.kind ) } );
}
}
string emit( const Board& b, Src& s )
{
    Out o( s );
    o.line( { o.key( ".HEADER" ) } ); if( o.t[0] != '.' ) o.t = o.t.substr( o.t.find( '.' ) );
    vector<string> v = b.ver == 3 ? vector<string>{ "3.0", "3.", "3" } : vector<string>{ "2.0", "2.", "2" };
    o.line( { o.key( "BOARD_FILE" ), v[s.draw( 3 )], o.text( b.src ), o.text( b.date ), std::to_string( b.fver ) } );
    o.line( { o.text( b.name ), o.key( b.unit ) } );
    o.line( { o.key( ".END_HEADER" ) } );
    sec( o, b.board, b.ver );
    // the remaining sections but PLACEMENT in any order
    vector<int> ord; for( size_t i = 0; i < b.secs.size(); ++i ) ord.push_back( (int)i );
    if( b.hasDrills ) ord.insert( ord.begin() + s.draw( (uint32_t)ord.size() + 1 ), -1 );
    if( b.hasNotes ) ord.insert( ord.begin() + s.draw( (uint32_t)ord.size() + 1 ), -2 );
    for( int i : ord )
    {
        if( i >= 0 ) { sec( o, b.secs[i], b.ver ); continue; }
        if( i == -1 )
        {
            o.comments( b.dcom ); o.line( { o.key( ".DRILLED_HOLES" ) } );
            for( auto& d : b.drills )
            {
                auto kw = [&]( const string& x, std::initializer_list<const char*> k ) { for( auto* q : k ) if( x == q ) return o.key( x ); return o.text( x ); };
                string ref = kw( d.ref, { "BOARD", "NOREFDES", "PANEL" } ), ty = kw( d.type, { "PIN", "VIA", "MTG", "TOOL" } );
                if( b.ver == 2 ) o.line( { o.num( d.d ), o.num( d.x ), o.num( d.y ), ty, ref } );
                else o.line( { o.num( d.d ), o.num( d.x ), o.num( d.y ), o.key( d.pth ? "PTH" : "NPTH" ), ref, ty, o.key( d.owner ) } );
            }
            o.line( { o.key( ".END_DRILLED_HOLES" ) } );
        }
        else
        {
            o.comments( b.ncom ); o.line( { o.key( ".NOTES" ) } );
            for( auto& n : b.notes ) o.line( { o.num( n.x ), o.num( n.y ), o.num( n.h ), o.num( n.l ), o.text( n.t ) } );
            o.line( { o.key( ".END_NOTES" ) } );
        }
    }
    if( b.hasPlaces )
    {
        o.comments( b.pcom ); o.line( { o.key( ".PLACEMENT" ) } );
        for( auto& p : b.places )
        {
            o.line( { o.text( p.geom ), o.text( p.part ), p.ref == "NOREFDES" ? o.key( p.ref ) : o.text( p.ref ) } );
            if( b.ver == 2 ) o.line( { o.num( p.x ), o.num( p.y ), o.num( p.rot ), o.key( p.side ), o.key( p.st ) } );
            else o.line( { o.num( p.x ), o.num( p.y ), o.num( p.z ), o.num( p.rot ), o.key( p.side ), o.key( p.st ) } );
        }
        o.line( { o.key( ".END_PLACEMENT" ) } );
    }
    return o.done();
}
string emit( const Lib& l, Src& s )
{
    Out o( s );
    o.line( { o.key( ".HEADER" ) } ); if( o.t[0] != '.' ) o.t = o.t.substr( o.t.find( '.' ) );
    vector<string> v = l.ver == 3 ? vector<string>{ "3.0", "3.", "3" } : vector<string>{ "2.0", "2.", "2" };
    o.line( { o.key( "LIBRARY_FILE" ), v[s.draw( 3 )], o.text( l.src ), o.text( l.date ), std::to_string( l.fver ) } );
    o.line( { o.key( ".END_HEADER" ) } );
    for( auto& p : l.parts )
    {
        string k = p.elec ? "ELECTRICAL" : "MECHANICAL"; o.comments( p.com );
        o.line( { o.key( "." + k ) } ); o.line( { o.text( p.geom ), o.text( p.part ), o.key( p.unit ), o.num( p.h ) } );
        o.loops( p.loops, p.index );
        if( l.ver == 3 && p.elec ) for( auto& q : p.props ) o.line( { o.key( "PROP" ), o.text( q.first ), o.text( q.second ) } );
        o.line( { o.key( ".END_" + k ) } );
    }
    return o.done();
}

// ---- reading
namespace
{
struct Tok { string t; bool q; };
struct In
{
    vector<string> l; size_t i = 0;
    explicit In( const string& t )
    {
        size_t p = 0; REQ( !t.empty() && t.back() == '\n', "the file does not end with a line end" );
        while( p < t.size() ) { size_t e = t.find( '\n', p ); l.push_back( t.substr( p, e - p ) ); p = e + 1; }
    }
    bool eof() { while( i < l.size() && l[i].find_first_not_of( " \t" ) == string::npos ) ++i; return i >= l.size(); }
    bool comment() { return !eof() && l[i][0] == '#'; }
    vector<Tok> next( const char* what )
    {
        REQ( !eof(), "end of file instead of " << what ); const string& x = l[i++]; vector<Tok> o; size_t p = 0;
        while( true )
        {
            while( p < x.size() && ( x[p] == ' ' || x[p] == '\t' ) ) ++p; if( p >= x.size() ) break;
            if( x[p] == '"' ) { size_t e = x.find( '"', p + 1 ); REQ( e != string::npos, "open string in line: " << x ); o.push_back( Tok{ x.substr( p + 1, e - p - 1 ), true } ); p = e + 1; REQ( p >= x.size() || x[p] == ' ', "no space after a string: " << x ); }
            else { size_t e = p; while( e < x.size() && x[e] != ' ' && x[e] != '\t' ) ++e; o.push_back( Tok{ x.substr( p, e - p ), false } ); p = e; }
        }
        return o;
    }
    string cur() { return i ? l[i - 1] : ""; }
    double num( const Tok& t ) { REQ( !t.q, "quoted number in: " << cur() ); char* e; double v = strtod( t.t.c_str(), &e ); REQ( !t.t.empty() && !*e && std::isfinite( v ) && t.t.find_first_not_of( "+-0123456789.eE" ) == string::npos, "'" << t.t << "' is no number, in: " << cur() ); return v; }
    int integer( const Tok& t ) { double v = num( t ); REQ( v == floor( v ) && t.t.find_first_not_of( "0123456789" ) == string::npos, "'" << t.t << "' is no integer, in: " << cur() ); return (int)v; }
    string word( const Tok& t, std::initializer_list<const char*> k ) { REQ( !t.q, "quoted keyword in: " << cur() ); for( auto* q : k ) if( t.t == q ) return t.t; FAILMSG( "unexpected '" << t.t << "' in: " << cur() ); }
    void count( const vector<Tok>& v, size_t a, size_t b, const char* what ) { REQ( v.size() >= a && v.size() <= b, what << " has " << v.size() << " fields: " << cur() ); }
    void expect( const char* k ) { auto v = next( k ); REQ( v.size() == 1 && !v[0].q && v[0].t == k, "expected " << k << ", found: " << cur() ); }
    // loops up to a line which does not start with a number
    void loops( vector<Rows>& o, vector<int>& ix, bool single )
    {
        int cur_ = -1;
        while( !eof() && ( isdigit( (unsigned char)l[i][0] ) ) )
        {
            auto v = next( "point" ); count( v, 4, 4, "a point" ); int n = integer( v[0] );
            if( n != cur_ ) { REQ( cur_ == -1 ? n == 0 || ( single && n == 1 ) : !single && n == cur_ + 1, "loop index " << n << " after " << cur_ << ": " << cur() ); cur_ = n; o.push_back( Rows() ); ix.push_back( n ); }
            o.back().push_back( Row{ num( v[1] ), num( v[2] ), num( v[3] ) } );
        }
        for( auto& r : o )
        {
            REQ( r.size() >= 2, "a loop has a single point" ); REQ( r[0].a == 0, "the first point of a loop has an angle" );
            if( r[1].a == 360 ) { REQ( r.size() == 2, "a circle has further points" ); continue; }
            REQ( r.size() >= 3, "a loop with a single curve" ); for( size_t k = 1; k < r.size(); ++k ) REQ( fabs( r[k].a ) < 360, "angle " << r[k].a );
            REQ( r.front().x == r.back().x && r.front().y == r.back().y, "a loop is not closed: starts at " << str( r.front() ) << " ends at " << str( r.back() ) );
        }
    }
    void comments( vector<string>& c ) { while( comment() ) { string k = l[i++].substr( 1 ); size_t a = k.find_first_not_of( " \t" ); if( a == string::npos ) k = ""; else { k = k.substr( a ); k = k.substr( 0, k.find_last_not_of( " \t" ) + 1 ); } c.push_back( k ); } }
};
}
Board parseBoard( const string& t )
{
    In in( t ); Board b; in.expect( ".HEADER" );
    auto v = in.next( "record 2" ); in.count( v, 5, 5, "record 2" ); in.word( v[0], { "BOARD_FILE" } ); in.word( v[1], { "3.0" } ); b.src = v[2].t; REQ( v[2].q, "source not quoted" ); b.date = v[3].t; REQ( currentStamp( b.date, "YYYY/MM/DD.hh:mm:ss" ), "the date '" << b.date << "' is not the current time" ); b.fver = in.integer( v[4] );
    v = in.next( "record 3" ); in.count( v, 2, 2, "record 3" ); b.name = v[0].t; REQ( v[0].q, "board name not quoted" ); b.unit = in.word( v[1], { "MM", "THOU" } );
    in.expect( ".END_HEADER" );
    bool first = true, last = false;
    while( !in.eof() )
    {
        vector<string> com; in.comments( com ); REQ( !last, "data after PLACEMENT" );
        v = in.next( "section" ); string k = v[0].t; REQ( !v[0].q && k.size() > 1 && k[0] == '.', "expected a section, found: " << in.cur() ); k = k.substr( 1 );
        REQ( ( k == "BOARD_OUTLINE" ) == first, "section " << k << " out of place" ); first = false;
        if( k == "DRILLED_HOLES" )
        {
            REQ( v.size() == 1 && !b.hasDrills, "bad DRILLED_HOLES" ); b.hasDrills = true; b.dcom = com;
            while( true )
            {
                v = in.next( "drill" ); if( v.size() == 1 && v[0].t == ".END_DRILLED_HOLES" ) break;
                in.count( v, 7, 7, "a drill" ); Drill d; d.d = in.num( v[0] ); d.x = in.num( v[1] ); d.y = in.num( v[2] ); d.pth = in.word( v[3], { "PTH", "NPTH" } ) == "PTH"; d.ref = v[4].t; d.type = v[5].t; d.owner = in.word( v[6], { "MCAD", "ECAD", "UNOWNED" } );
                if( !v[4].q ) in.word( v[4], { "BOARD", "NOREFDES", "PANEL" } ); if( !v[5].q ) in.word( v[5], { "PIN", "VIA", "MTG", "TOOL" } ); b.drills.push_back( d );
            }
        }
        else if( k == "NOTES" )
        {
            REQ( v.size() == 1 && !b.hasNotes, "bad NOTES" ); b.hasNotes = true; b.ncom = com;
            while( true )
            {
                v = in.next( "note" ); if( v.size() == 1 && v[0].t == ".END_NOTES" ) break;
                in.count( v, 5, 5, "a note" ); REQ( v[4].q, "note text not quoted" ); b.notes.push_back( Note{ in.num( v[0] ), in.num( v[1] ), in.num( v[2] ), in.num( v[3] ), v[4].t } );
            }
        }
        else if( k == "PLACEMENT" )
        {
            REQ( v.size() == 1, "bad PLACEMENT" ); b.hasPlaces = last = true; b.pcom = com;
            while( true )
            {
                v = in.next( "component" ); if( v.size() == 1 && v[0].t == ".END_PLACEMENT" ) break;
                in.count( v, 3, 3, "placement record 2" ); Place p; p.geom = v[0].t; p.part = v[1].t; p.ref = v[2].t;
                v = in.next( "placement" ); in.count( v, 6, 6, "placement record 3" ); p.x = in.num( v[0] ); p.y = in.num( v[1] ); p.z = in.num( v[2] ); p.rot = in.num( v[3] ); p.side = in.word( v[4], { "TOP", "BOTTOM" } ); p.st = in.word( v[5], { "PLACED", "UNPLACED", "MCAD", "ECAD" } ); b.places.push_back( p );
            }
        }
        else
        {
            Sec x; x.kind = k; x.com = com; in.count( v, 2, 2, "section header" ); x.owner = in.word( v[1], { "MCAD", "ECAD", "UNOWNED" } ); bool single = true;
            if( k == "BOARD_OUTLINE" ) { v = in.next( "thickness" ); in.count( v, 1, 1, "record 2" ); x.hasH = true; x.h = in.num( v[0] ); single = false; }
            else if( k == "OTHER_OUTLINE" ) { v = in.next( "record 2" ); in.count( v, 3, 3, "record 2" ); x.id = v[0].t; x.hasH = true; x.h = in.num( v[1] ); x.side = in.word( v[2], { "TOP", "BOTTOM" } ); single = false; }
            else if( k == "VIA_KEEPOUT" ) ;
            else if( k == "ROUTE_OUTLINE" || k == "ROUTE_KEEPOUT" ) { v = in.next( "record 2" ); in.count( v, 1, 1, "record 2" ); x.side = in.word( v[0], { "TOP", "BOTTOM", "BOTH", "INNER", "ALL" } ); }
            else if( k == "PLACE_OUTLINE" || k == "PLACE_KEEPOUT" ) { v = in.next( "record 2" ); in.count( v, k == "PLACE_OUTLINE" ? 1 : 2, 2, "record 2" ); x.side = in.word( v[0], { "TOP", "BOTTOM", "BOTH" } ); if( v.size() > 1 ) { x.hasH = true; x.h = in.num( v[1] ); REQ( x.h >= 0, "negative height in: " << in.cur() ); } }
            else if( k == "PLACE_REGION" ) { v = in.next( "record 2" ); in.count( v, 2, 2, "record 2" ); x.side = in.word( v[0], { "TOP", "BOTTOM", "BOTH" } ); x.id = v[1].t; }
            else FAILMSG( "unknown section " << k );
            in.loops( x.loops, x.index, single ); in.expect( ( ".END_" + k ).c_str() );
            if( k == "BOARD_OUTLINE" ) b.board = x; else b.secs.push_back( x );
        }
    }
    REQ( !first, "no BOARD_OUTLINE" );
    return b;
}
Lib parseLib( const string& t )
{
    In in( t ); Lib b; in.expect( ".HEADER" );
    auto v = in.next( "record 2" ); in.count( v, 5, 5, "record 2" ); in.word( v[0], { "LIBRARY_FILE" } ); in.word( v[1], { "3.0" } ); b.src = v[2].t; REQ( v[2].q, "source not quoted" ); b.date = v[3].t; REQ( currentStamp( b.date, "YYYY/MM/DD.hh:mm:ss" ), "the date '" << b.date << "' is not the current time" ); b.fver = in.integer( v[4] );
    in.expect( ".END_HEADER" );
    while( !in.eof() )
    {
        Part p; in.comments( p.com ); v = in.next( "section" ); in.count( v, 1, 1, "section header" ); p.elec = in.word( v[0], { ".ELECTRICAL", ".MECHANICAL" } ) == ".ELECTRICAL";
        v = in.next( "record 2" ); in.count( v, 4, 4, "record 2" ); p.geom = v[0].t; p.part = v[1].t; p.unit = in.word( v[2], { "MM", "THOU" } ); p.h = in.num( v[3] );
        in.loops( p.loops, p.index, true );
        while( true )
        {
            v = in.next( "end of section" ); if( v.size() == 1 ) { in.word( v[0], { p.elec ? ".END_ELECTRICAL" : ".END_MECHANICAL" } ); break; }
            in.count( v, 3, 3, "a property" ); in.word( v[0], { "PROP" } ); REQ( p.elec, "property of a mechanical part" ); p.props.push_back( { v[1].t, v[2].t } );
        }
        b.parts.push_back( p );
    }
    return b;
}

// ---- generating
static double rnd( double v, const string& unit ) { double q = unit == "MM" ? 1e5 : unit == "THOU" ? 10 : 1; return round( v / mm( unit ) * q ) / q; }
Rows rows( const g2::Loop& l, const string& unit, int start )
{
    Rows o; if( l.empty() ) return o;
    auto P = [&]( g2::P p, double a ) { o.push_back( Row{ rnd( (double)p.x, unit ), rnd( (double)p.y, unit ), a } ); };
    if( l[0].t == g2::CIRCLE ) { P( l[0].c, 0 ); P( g2::P{ l[0].c.x + l[0].r, l[0].c.y }, 360 ); return o; }
    size_t n = l.size(); P( l[start % n].s, 0 );
    for( size_t i = 0; i < n; ++i ) { auto& k = l[( start + i ) % n]; double a = k.t == g2::LINE ? 0 : round( (double)( k.sw * 180 / g2::PI ) * 1000 ) / 1000; if( k.t == g2::ARC && fabs( a ) < 0.5 ) a = 0; P( k.e, a ); }
    return o;
}
g2::Loop loopOf( const Rows& r, double sc )
{
    g2::Loop l; auto P = [&]( const Row& q ) { return g2::P{ (g2::LD)q.x * sc, (g2::LD)q.y * sc }; };
    if( r.size() == 2 && r[1].a == 360 ) { l.push_back( g2::circle( P( r[0] ), g2::dist( P( r[0] ), P( r[1] ) ) ) ); return l; }
    for( size_t i = 1; i < r.size(); ++i )
    {
        g2::P a = P( r[i - 1] ), b = P( r[i] );
        if( r[i].a == 0 ) { l.push_back( g2::line( a, b ) ); continue; }
        g2::LD t = r[i].a * g2::PI / 360, f = 1 / ( 2 * tanl( t ) );    // centre = middle + f * left normal of the chord
        g2::P c{ ( a.x + b.x ) / 2 - f * ( b.y - a.y ), ( a.y + b.y ) / 2 + f * ( b.x - a.x ) };
        l.push_back( g2::arc( c, a, b, r[i].a < 0 ) );
    }
    return l;
}
Rows genRows( Src& s, const string& unit, g2::P c, double r, bool cw, int kind )
{
    for( int i = 0; i < 3; ++i )
    {
        g2::Loop l = g2::genLoop( s, c, r, kind ); if( l.empty() ) continue;
        if( cw ) l = g2::reversed( l );
        return rows( l, unit, s.range( 0, 9 ) );
    }
    g2::Loop l; g2::P v[4] = { { c.x - r, c.y - r }, { c.x + r, c.y - r }, { c.x + r, c.y + r }, { c.x - r, c.y + r } };
    for( int i = 0; i < 4; ++i ) l.push_back( g2::line( v[i], v[( i + 1 ) % 4] ) );
    if( cw ) l = g2::reversed( l ); return rows( l, unit, 0 );
}
namespace
{
const vector<string> words = { "a", "R1", "U-3", "x y", "", "SOT23", "very long name with several words and (punctuation); 1/2", "100K", "it's", "~", "p#1", ".dot", "#hash", "end" };
string word( Src& s, bool nonEmpty = false ) { string w = s.pick( words ); return nonEmpty && w.empty() ? "b" : w; }
vector<string> comments( Src& s, bool on ) { vector<string> o; if( on ) for( int n = s.weighted( { 4, 2, 1 } ); n > 0; --n ) o.push_back( s.pick( vector<string>{ "comment", "", "two words", "1 2 3", ".END_HEADER", "# more", "\"quoted" } ) ); return o; }
double coord( Src& s, const string& unit, double lim ) { double v = s.flip() ? s.range( -(int)lim, (int)lim ) : ( s.draw( 2000001 ) / 1e6 - 1 ) * lim; return rnd( v, unit ); }
double positive( Src& s, const string& unit, double lim ) { double v = s.flip() ? s.range( 1, (int)lim ) : 0.5 + s.draw( 1000001 ) / 1e6 * ( lim - 0.5 ); return rnd( v, unit ); }
double degrees( Src& s ) { return s.flip() ? s.range( 0, 3 ) * 90.0 : s.range( -360000, 360000 ) / 1000.0; }
}
Board genBoard( Src& s, Lib* lib )
{
    Board b; b.ver = s.chance( 1, 4 ) ? 2 : 3; bool v3 = b.ver == 3;
    b.unit = s.pick( v3 ? vector<string>{ "MM", "MM", "THOU" } : vector<string>{ "MM", "THOU", "TNM" } ); const string& u = b.unit;
    b.src = word( s ); b.date = s.pick( vector<string>{ "2015/04/14.17:9:18", "today", "11 May" } ); b.fver = s.flip() ? s.range( 0, 20 ) : s.range( 0, 100000 ); b.name = word( s );
    bool com = s.chance( 2, 3 ); const vector<string> own = { "UNOWNED", "MCAD", "ECAD" };
    Sec& o = b.board; o.kind = "BOARD_OUTLINE"; if( v3 ) o.owner = s.pick( own ); o.com = comments( s, com ); o.hasH = true; o.h = s.flip() ? rnd( 1.6, u ) : positive( s, u, 5 );
    if( !s.chance( 1, 12 ) ) { o.loops.push_back( genRows( s, u, g2::P{ 0, 0 }, 60, false ) ); o.index.push_back( 0 ); }
    auto holes = [&]( Sec& x, int n ) { if( x.loops.empty() ) return; for( ; n > 0; --n ) { x.loops.push_back( genRows( s, u, g2::P{ (g2::LD)s.range( -25, 25 ), (g2::LD)s.range( -25, 25 ) }, s.range( 1, 8 ), true ) ); x.index.push_back( (int)x.loops.size() - 1 ); } };
    holes( o, s.weighted( { 3, 2, 1, 1 } ) );
    std::set<string> ids;
    for( int n = s.weighted( { 2, 3, 2, 1, 1 } ); n > 0; --n )
    {
        Sec x; x.kind = s.pick( vector<string>{ "OTHER_OUTLINE", "ROUTE_OUTLINE", "PLACE_OUTLINE", "ROUTE_KEEPOUT", "VIA_KEEPOUT", "PLACE_KEEPOUT", "PLACE_REGION" } );
        if( v3 ) x.owner = s.pick( own ); x.com = comments( s, com ); bool cw = false; const string& k = x.kind;
        if( k == "OTHER_OUTLINE" ) { x.id = word( s ); if( !ids.insert( x.id ).second ) continue; x.hasH = true; x.h = s.chance( 1, 6 ) ? 0 : positive( s, u, 20 ); x.side = v3 ? s.pick( vector<string>{ "TOP", "BOTTOM" } ) : "TOP"; }
        else if( k == "ROUTE_OUTLINE" || k == "ROUTE_KEEPOUT" ) { if( !v3 && k == "ROUTE_OUTLINE" ) x.side = "ALL"; else x.side = s.pick( v3 ? vector<string>{ "TOP", "BOTTOM", "BOTH", "INNER", "ALL" } : vector<string>{ "TOP", "BOTTOM", "BOTH" } ); }
        else if( k == "PLACE_OUTLINE" && !v3 ) { x.side = "TOP"; x.hasH = true; x.h = 0; }
        else if( k == "PLACE_OUTLINE" || k == "PLACE_KEEPOUT" ) { x.side = s.pick( vector<string>{ "TOP", "BOTTOM", "BOTH" } ); x.hasH = k == "PLACE_KEEPOUT" || s.flip(); if( x.hasH ) x.h = s.chance( 1, 6 ) ? 0 : positive( s, u, 20 ); }
        else if( k == "PLACE_REGION" ) { x.side = s.pick( vector<string>{ "TOP", "BOTTOM", "BOTH" } ); x.id = word( s ); }
        bool single = k != "OTHER_OUTLINE"; cw = single && s.chance( 1, 3 );
        Rows r = genRows( s, u, g2::P{ (g2::LD)s.range( -30, 30 ), (g2::LD)s.range( -30, 30 ) }, s.range( 5, 20 ), cw );
        x.loops.push_back( r ); x.index.push_back( cw && r.size() > 2 ? 1 : 0 );
        if( !single ) holes( x, s.weighted( { 3, 1 } ) );
        b.secs.push_back( x );
    }
    const vector<string> refs = { "R1", "U2", "J 3", "c4", "NOREFDES", "@HOLE", "Q1" };
    b.hasDrills = s.chance( 3, 4 );
    if( b.hasDrills )
    {
        b.dcom = comments( s, com );
        for( int n = s.range( 0, 6 ); n > 0; --n )
        {
            Drill d; d.d = u == "MM" ? round( positive( s, u, 5 ) * 1000 ) / 1000 : positive( s, u, 5 ); d.x = coord( s, u, 60 ); d.y = coord( s, u, 60 );
            d.ref = s.flip() ? "BOARD" : s.chance( 1, 5 ) ? "PANEL" : s.pick( refs ); d.type = s.pick( vector<string>{ "PIN", "VIA", "MTG", "TOOL", "pilot hole", "X" } );
            if( v3 ) { d.pth = s.flip(); d.owner = s.pick( own ); } b.drills.push_back( d );
        }
    }
    b.hasNotes = v3 && s.chance( 1, 3 );
    if( b.hasNotes ) { b.ncom = comments( s, com ); for( int n = s.range( 0, 3 ); n > 0; --n ) { Note t; t.x = coord( s, u, 60 ); t.y = coord( s, u, 60 ); t.h = positive( s, u, 10 ); t.l = positive( s, u, 50 ); t.t = word( s ); b.notes.push_back( t ); } }
    if( !lib ) return b;
    lib->ver = b.ver; lib->src = word( s ); lib->date = "2016/01/02.03:04:05"; lib->fver = s.range( 0, 50 );
    std::set<string> names;
    for( int n = s.range( 0, 4 ); n > 0; --n )
    {
        Part p; p.elec = !s.chance( 1, 3 ); p.geom = word( s ); p.part = word( s, p.geom.empty() ); if( !names.insert( p.geom + "\n" + p.part ).second ) continue;
        p.unit = s.pick( v3 ? vector<string>{ "MM", "THOU" } : vector<string>{ "MM", "THOU", "TNM" } ); p.h = s.chance( 1, 8 ) ? 0 : positive( s, p.unit, 20 ); p.com = comments( s, com );
        if( !s.chance( 1, 10 ) ) { bool cw = s.chance( 1, 3 ); p.loops.push_back( genRows( s, p.unit, g2::P{ (g2::LD)s.range( -5, 5 ), (g2::LD)s.range( -5, 5 ) }, s.range( 2, 12 ), cw ) ); p.index.push_back( cw && p.loops[0].size() > 2 ? 1 : 0 ); }
        if( v3 && p.elec ) { std::set<string> k; for( int m = s.weighted( { 3, 1, 1, 1 } ); m > 0; --m ) { string q = s.pick( vector<string>{ "CAPACITANCE", "RESISTANCE", "my prop", "POWER_OPR" } ); if( k.insert( q ).second ) p.props.push_back( { q, s.pick( vector<string>{ "100", "1.5e3", "", "two words" } ) } ); } }
        lib->parts.push_back( p );
    }
    b.hasPlaces = s.chance( 4, 5 );
    if( b.hasPlaces )
    {
        b.pcom = comments( s, com ); std::map<string, Place> seen;
        for( int n = s.range( 0, 5 ); n > 0; --n )
        {
            Place p; p.ref = s.pick( refs );
            if( lib->parts.empty() || s.chance( 1, 8 ) ) { p.geom = s.pick( vector<string>{ "MISSING", "no such" } ); p.part = word( s ); }
            else { auto& q = s.pick( lib->parts ); p.geom = q.geom; p.part = q.part; }
            p.x = coord( s, u, 60 ); p.y = coord( s, u, 60 ); p.rot = degrees( s ); if( v3 ) p.z = u == "MM" ? round( coord( s, u, 3 ) * 1000 ) / 1000 : coord( s, u, 3 );
            p.side = s.pick( vector<string>{ "TOP", "BOTTOM" } ); p.st = s.pick( v3 ? vector<string>{ "PLACED", "UNPLACED", "MCAD", "ECAD" } : vector<string>{ "PLACED", "UNPLACED", "FIXED" } );
            if( p.ref != "NOREFDES" ) { auto i = seen.find( p.ref ); if( i == seen.end() ) seen[p.ref] = p; else { p.side = i->second.side; p.st = i->second.st; } }
            b.places.push_back( p );
        }
    }
    return b;
}
}
