// C04: no input may crash, hang or corrupt the reader.
#include "model.h"
#include "exercise.h"
#include <unistd.h>

namespace
{
// --- damage to the abstract model: everything still well-formed as text
void damageModel( Src& s, std::vector<AEnt>& m, Ctx& c )
{
    int n = s.range( 0, 3 );
    auto rnd = [&]() { return (int)s.draw( (uint32_t)m.size() ); };
    auto num = [&]() { return s.pick( std::vector<long>{ 0, 1, -1, 2, 3, 7, 100, -5, 9999999, 2147483647L, -2147483647L, 65536, 1000000 } ); };
    for( int k = 0; k < n && m.size(); ++k )
    {
        AEnt& e = m[rnd()];
        switch( s.draw( 13 ) )
        {
        case 0: case 1:     // retarget a pointer of the parameters
        {
            std::vector<size_t> pp; for( size_t i = 0; i < e.params.size(); ++i ) if( e.params[i].k == Val::PTR || e.params[i].k == Val::NPTR ) pp.push_back( i );
            if( pp.empty() ) break;
            Val& v = e.params[s.pick( pp )]; c.label( "pointer retargeted" );
            if( s.chance( 1, 6 ) ) v = Val::I( num() );
            else if( s.chance( 1, 6 ) ) v.k = v.k == Val::PTR ? Val::NPTR : Val::PTR;
            else v.i = s.chance( 1, 8 ) ? -1 : rnd();
            break;
        }
        case 2:             // counts and flags
        {
            std::vector<size_t> pp; for( size_t i = 0; i < e.params.size(); ++i ) if( e.params[i].k == Val::INT ) pp.push_back( i );
            if( pp.empty() ) break;
            Val& v = e.params[s.pick( pp )]; c.label( "count or flag changed" );
            if( s.flip() ) v.i += s.range( -2, 2 ); else v.i = num();
            break;
        }
        case 3: if( e.params.size() ) { e.params.erase( e.params.begin() + s.draw( (uint32_t)e.params.size() ) ); c.label( "parameter removed" ); } break;
        case 4: if( e.params.size() ) { size_t i = s.draw( (uint32_t)e.params.size() ); e.params.insert( e.params.begin() + i, e.params[s.draw( (uint32_t)e.params.size() )] ); c.label( "parameter inserted" ); } break;
        case 5: if( e.params.size() ) { e.params.resize( s.draw( (uint32_t)e.params.size() ) ); c.label( "parameters cut" ); } break;
        case 6: if( e.params.size() ) { Val& v = e.params[s.draw( (uint32_t)e.params.size() )]; c.label( "parameter of another kind" );
                switch( s.draw( 5 ) ) { case 0: v = Val(); break; case 1: v = Val::S( genText( s, 20 ) ); break; case 2: v = Val::R( s.pick( std::vector<double>{ 0, 1e30, -1e-30, 1e300, 0.5, -1 } ), 0 ); break; case 3: v = Val::I( num() ); break; default: v = Val::P( rnd() ); break; } } break;
        case 7: e.xform = rnd(); c.label( "transform retargeted" ); break;
        case 8: switch( s.draw( 6 ) ) { case 0: e.colorEnt = rnd(); break; case 1: e.viewEnt = rnd(); break; case 2: e.lassocEnt = rnd(); break; case 3: e.levelEnt = rnd(); break; case 4: e.lfpEnt = rnd(); break; default: e.structEnt = rnd(); break; }
                c.label( "attribute pointer retargeted" ); break;
        case 9: { static const int T[] = { 100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 154, 164, 180, 186, 308, 314, 406, 408, 502, 504, 508, 510, 514, 0, 106, 999 }; e.type = T[s.draw( 27 )]; c.label( "type changed" ); break; }
        case 10: e.form = s.pick( std::vector<int>{ 0, 1, 2, 3, 15, -1, 99 } ); c.label( "form changed" ); break;
        case 11: switch( s.draw( 6 ) ) { case 0: e.dep = s.range( 0, 9 ); break; case 1: e.use = s.range( 0, 9 ); break; case 2: e.hier = s.range( 0, 9 ); break; case 3: e.blank = s.range( 0, 9 ); break; case 4: e.lw = (int)num() % 10000000; break; default: e.color = (int)num() % 10000000; break; } c.label( "status changed" ); break;
        default: { int i = rnd(); ( s.flip() ? e.props : e.assoc ).push_back( i ); c.label( "optional pointer added" ); break; }
        }
    }
}

std::vector<std::string> lines( const std::string& t )
{
    std::vector<std::string> r; size_t p = 0;
    while( p < t.size() ) { size_t q = t.find( '\n', p ); if( q == std::string::npos ) { r.push_back( t.substr( p ) ); break; } r.push_back( t.substr( p, q - p + 1 ) ); p = q + 1; }
    return r;
}

// --- damage to the text
std::string damageText( Src& s, const std::string& text, Ctx& c )
{
    std::vector<std::string> l = lines( text );
    int n = s.weighted( { 5, 5, 2, 1 } );
    auto rl = [&]() { return s.draw( (uint32_t)l.size() ); };
    for( int k = 0; k < n && l.size() > 1; ++k )
    {
        size_t i = rl();
        switch( s.draw( 9 ) )
        {
        case 0: l.erase( l.begin() + i ); c.label( "line removed" ); break;
        case 1: { std::string t = l[i]; l.insert( l.begin() + rl(), t ); c.label( "line repeated" ); break; }
        case 2: { size_t j = rl(); std::swap( l[i], l[j] ); c.label( "lines swapped" ); break; }
        case 3: case 4:     // a field of a directory line
        {
            std::vector<size_t> d; for( size_t j = 0; j < l.size(); ++j ) if( l[j].size() > 73 && l[j][72] == 'D' ) d.push_back( j );
            if( d.empty() ) break;
            std::string& x = l[s.pick( d )]; int f = s.draw( 10 );
            std::string v = s.pick( std::vector<std::string>{ "       0", "       1", "      -1", "       2", "       3", "99999999", "-9999999", "     abc", "        ", "01010101", "     124", "     126", "     128", "     508", "  2.5   ", "00000400" } );
            if( s.flip() ) v = strf( "%8d", s.range( -60, 60 ) );
            if( f < 9 ) x.replace( f * 8, 8, v ); else x.replace( 73, 7, v.substr( 1 ) );
            c.label( "directory field changed" );
            break;
        }
        case 5: { std::string& x = l[i]; if( x.size() ) { int m = s.range( 1, 4 ); for( int q = 0; q < m; ++q ) x[s.draw( (uint32_t)x.size() )] = s.flip() ? ",;0123456789-+.EDH "[s.draw( 19 )] : (char)s.draw( 256 ); } c.label( "bytes changed" ); break; }
        case 6: { std::string& x = l[i]; x.resize( s.draw( (uint32_t)x.size() + 1 ) ); if( s.flip() ) x += "\n"; c.label( "line cut" ); break; }
        case 7: { std::string& x = l[i]; size_t p = s.draw( (uint32_t)x.size() + 1 ); x.insert( p, std::string( s.range( 1, 100 ), s.pick( std::vector<char>{ ' ', ',', '1', 'H', '\0', '\n', '\r', (char)0xff } ) ) ); c.label( "text inserted" ); break; }
        default:            // parameter text: H strings and numbers
        {
            std::vector<size_t> d; for( size_t j = 0; j < l.size(); ++j ) if( l[j].size() > 73 && ( l[j][72] == 'P' || l[j][72] == 'G' ) ) d.push_back( j );
            if( d.empty() ) break;
            std::string& x = l[s.pick( d )]; size_t p = s.draw( 60 );
            std::string v = s.pick( std::vector<std::string>{ "99999999H", "-5H", "0H", "1E999", ",,,,", ";", "1,", "2147483648,", "1D", "H", "-", "NaN", "1H;" } );
            x.replace( p, v.size(), v ); c.label( "parameter text changed" );
            break;
        }
        }
    }
    std::string o; for( auto& x : l ) o += x;
    if( s.chance( 1, 10 ) ) { o.resize( s.draw( (uint32_t)o.size() + 1 ) ); c.label( "file cut" ); }
    return o;
}

std::string& goodFile( Ctx& c )
{
    static std::string path;
    if( path.empty() )
    {
        path = c.path( "good.igs" );
        IGES g; IGES_ENTITY* e = NULL; g.NewEntity( 110, &e ); dynamic_cast<IGES_ENTITY_110*>( e )->X2 = 5;
        g.Write( path.c_str(), true );
    }
    return path;
}

void runOn( const std::string& text, Src& s, Ctx& c )
{
    std::string f = c.path( "a.igs" ), o = c.path( "o.igs" );
    writeFile( f, text );
    c.desc = text;
    unsigned which = s.draw( 1024 ), unit = s.draw( 10 );
    if( s.chance( 1, 12 ) )
    {
        size_t l = leak( [&]() { IGES x; x.Read( f.c_str() ); } ); c.label( "memory balance" ); REQ( l == 0, l << " bytes are lost by every load of this file" );
    }
    IGES r;
    bool ok = r.Read( f.c_str() );
    c.label( ok ? "read: accepted" : "read: rejected" );
    if( ok ) { exerciseModel( r, o, which, unit ); if( !s.chance( 1, 4 ) ) return; REQ( r.Clear(), "Clear() fails after the load of a damaged file" ); }
    // the same object is still good for another file or a new model
    if( s.flip() )
    {
        REQ( r.Read( goodFile( c ).c_str() ), "after loading a damaged file (" << ( ok ? "accepted" : "rejected" ) << ") a good file is rejected" );
    }
    else
    {
        IGES_ENTITY* e = NULL;
        if( !ok ) r.Clear();
        REQ( r.NewEntity( 110, &e ) && e, "NewEntity() fails after a failed load" );
        dynamic_cast<IGES_ENTITY_110*>( e )->X2 = 5;
    }
    REQ( r.Write( o.c_str(), true ), "after a failed load a good model cannot be saved" );
    PDoc d; parseIges( readFile( o ), d );
    REQ( d.problems.empty(), "after a failed load the saved file is malformed" );
    REQ( d.ents.size() == 1 && d.ents[0].type == 110, "after a failed load the model contains other entities: " << d.ents.size() << " in the saved file" );
}

void damaged( Src& s, Ctx& c )
{
    GenOpts o; o.foreign = true; o.brep = true; o.unsupported = s.chance( 1, 4 ); o.maxThings = s.range( 1, 3 );
    o.res = 1e-6;
    std::vector<AEnt> m = genModel( s, o );
    if( s.chance( 1, 4 ) ) shuffleModel( s, m );
    GlobalVals g; g.minRes = o.res;
    if( s.chance( 1, 3 ) ) g = genGlobals( s, true );
    if( s.chance( 1, 10 ) ) g.scale = s.pick( std::vector<double>{ 0, -1, 1e300, 1e-300, 2 } );
    if( s.chance( 1, 10 ) ) g.unit = s.pick( std::vector<int>{ 0, 3, 12, -1, 1, 6 } );
    if( s.chance( 1, 20 ) ) g.minRes = s.pick( std::vector<double>{ 0, -1, 1e300, 1e-300 } );
    damageModel( s, m, c );
    std::string text = writeIges( {}, g, m, s, true );
    text = damageText( s, text, c );
    c.nontrivial = !c.labels.empty();
    runOn( text, s, c );
}
// --- a single pointer or count at or beyond the border of what it may be: nothing else is wrong
void borders( Src& s, Ctx& c )
{
    GenOpts o; o.foreign = true; o.brep = true; o.maxThings = s.range( 1, 3 ); o.res = 1e-6;
    std::vector<AEnt> m = genModel( s, o );
    if( s.chance( 1, 4 ) ) shuffleModel( s, m );
    GlobalVals g; g.minRes = o.res;
    int n = (int)m.size();
    std::vector<std::pair<int, int>> spots;     // entity, parameter (or attribute when negative)
    bool ptr = s.chance( 2, 3 );
    for( int i = 0; i < n; ++i )
        for( size_t k = 0; k < m[i].params.size(); ++k )
        {
            int kd = m[i].params[k].k;
            if( ptr ? ( kd == Val::PTR || kd == Val::NPTR ) : kd == Val::INT ) spots.push_back( { i, (int)k } );
        }
    if( ptr ) for( int i = 0; i < n; ++i ) for( int a = 1; a <= 9; ++a ) if( a > 7 || s.chance( 1, 10 ) ) spots.push_back( { i, -a } );
    if( spots.empty() ) return;
    std::pair<int, int> at = s.pick( spots ); AEnt& e = m[at.first];
    if( ptr )
    {
        int v = 0;
        switch( s.draw( 6 ) ) { case 0: case 1: v = n; break; case 2: v = n + s.range( 1, 4 ); break; case 3: v = at.first; break; case 4: v = s.draw( n ); break; default: v = 4999998; break; }
        c.label( v >= n ? "pointer beyond the last entity" : v == at.first ? "pointer to itself" : "pointer to any entity" );
        c.label( strf( "pointer of type %d", e.type ) );
        switch( -at.second )
        {
        case 1: e.xform = v; break; case 2: e.colorEnt = v; break; case 3: e.viewEnt = v; break; case 4: e.lassocEnt = v; break;
        case 5: e.levelEnt = v; break; case 6: e.lfpEnt = v; break; case 7: e.structEnt = v; break;
        case 8: e.props.push_back( v ); break; case 9: e.assoc.push_back( v ); break;
        default: if( s.chance( 1, 8 ) ) e.params[at.second] = Val::I( 2 * v + ( s.flip() ? 2 : 0 ) ); else e.params[at.second].i = v; break;
        }
    }
    else
    {
        Val& v = e.params[at.second]; c.label( strf( "count of type %d", e.type ) );
        switch( s.draw( 5 ) ) { case 0: v.i = 0; break; case 1: v.i = -v.i; break; case 2: v.i += 1; break; case 3: v.i -= 1; break; default: v.i += s.pick( std::vector<long>{ 2, -2, 10, 1000, 2147483647L - v.i, -2147483648L - v.i } ); break; }
    }
    c.nontrivial = true;
    runOn( writeIges( {}, g, m, s, false ), s, c );
}
PROPERTY( "C04", "borders", "file with one pointer or count at or beyond its legal range", 20000, 600000, borders );
PROPERTY( "C04", "damaged", "file with at least one damage (pointer, count, kind, type, status, field, line or byte)", 80000, 1500000, damaged );

// --- files whose entities refer to each other in long chains, dense lattices and wide fans
AEnt line( double x ) { AEnt e; e.type = 110; for( int i = 0; i < 6; ++i ) e.params.push_back( Val::R( i == 0 ? x : i, 0 ) ); return e; }
AEnt ident() { AEnt e; e.type = 124; for( int i = 0; i < 12; ++i ) e.params.push_back( Val::R( i == 0 || i == 5 || i == 10, 0 ) ); return e; }

void structured( Src& s, Ctx& c )
{
    std::vector<AEnt> m;
    int kind = s.draw( 9 ), top = c.thorough && kind != 2 ? 4000 : 1000;
    int n = s.weighted( { 3, 2, 1 } ) == 0 ? s.range( 2, 40 ) : s.range( 2, top );
    bool rev = s.flip();            // pointers to later entities or to earlier ones
    bool loop = s.chance( 1, 4 );   // close the chain
    auto nxt = [&]( int i ) { int j = rev ? i - 1 : i + 1; if( j < 0 || j >= n ) return loop ? ( rev ? n - 1 : 0 ) : -1; return j; };
    static const char* NAMES[] = { "transform chain", "property chain", "subfigure chain", "boolean chain", "lattice of subfigures", "fan of instances", "fan of colours", "associativity chain", "lattice of properties" };
    c.label( NAMES[kind] );
    if( loop ) c.label( "closed chain" );
    switch( kind )
    {
    case 0: for( int i = 0; i < n; ++i ) { AEnt e = ident(); e.xform = nxt( i ); m.push_back( e ); } { AEnt e = line( 9 ); e.xform = rev ? n - 1 : 0; m.push_back( e ); } break;
    case 1: for( int i = 0; i < n; ++i ) { AEnt e = line( i ); if( nxt( i ) >= 0 ) e.props.push_back( nxt( i ) ); m.push_back( e ); } break;
    case 7: for( int i = 0; i < n; ++i ) { AEnt e = line( i ); if( nxt( i ) >= 0 ) e.assoc.push_back( nxt( i ) ); m.push_back( e ); } break;
    case 2: // 308 with an instance of the next definition
        for( int i = 0; i < n; ++i ) { AEnt d; d.type = 308; d.use = 2; d.params = { Val::I( n - i ), Val::S( "S" ), Val::I( 1 ), Val::P( n + i ) }; m.push_back( d ); }
        for( int i = 0; i < n; ++i ) { int j = nxt( i ); if( j < 0 ) { AEnt e = line( 1 ); e.dep = 1; m.push_back( e ); continue; } AEnt e; e.type = 408; e.dep = 1; e.params = { Val::P( j ), Val::R( 0, 0 ), Val::R( 0, 0 ), Val::R( 0, 0 ), Val::R( 1, 0 ) }; m.push_back( e ); }
        break;
    case 3: // boolean trees of boolean trees
        for( int i = 0; i < n; ++i ) { int j = nxt( i ); AEnt e; e.type = 180; e.dep = 1; e.params = { Val::I( 3 ), Val::N( j < 0 ? n : j ), Val::N( n + 1 ), Val::I( 1 ) }; m.push_back( e ); }
        for( int i = 0; i < 2; ++i ) { AEnt e; e.type = 164; e.dep = 1; e.params = { Val::P( n + 2 + i ), Val::R( 1, 0 ), Val::R( 0, 0 ), Val::R( 0, 0 ), Val::R( 1, 0 ) }; m.push_back( e ); }
        for( int i = 0; i < 2; ++i ) { AEnt e; e.type = 100; e.dep = 1; for( double v : { 0., 0., 0., 1., 0., 1., 0. } ) e.params.push_back( Val::R( v, 0 ) ); m.push_back( e ); }
        break;
    case 4: // every definition holds several instances of the next one: exponentially many paths
    {
        n = s.range( 2, 60 ); int w = s.range( 2, 3 );
        for( int i = 0; i < n; ++i ) { AEnt d; d.type = 308; d.use = 2; d.params = { Val::I( n - i ), Val::S( "S" ), Val::I( w ) }; for( int k = 0; k < w; ++k ) d.params.push_back( Val::P( n + i * w + k ) ); m.push_back( d ); }
        for( int i = 0; i < n; ++i ) for( int k = 0; k < w; ++k ) { int j = nxt( i ); if( j < 0 ) { AEnt e = line( k ); e.dep = 1; m.push_back( e ); continue; } AEnt e; e.type = 408; e.dep = 1; e.params = { Val::P( j ), Val::R( 0, 0 ), Val::R( 0, 0 ), Val::R( 0, 0 ), Val::R( 1, 0 ) }; m.push_back( e ); }
        break;
    }
    case 5: // one definition, many instances
        { AEnt d; d.type = 308; d.use = 2; d.params = { Val::I( 0 ), Val::S( "S" ), Val::I( 1 ), Val::P( 1 ) }; m.push_back( d ); AEnt e = line( 1 ); e.dep = 1; m.push_back( e ); }
        for( int i = 0; i < n; ++i ) { AEnt e; e.type = 408; e.params = { Val::P( 0 ), Val::R( i, 0 ), Val::R( 0, 0 ), Val::R( 0, 0 ), Val::R( 1, 0 ) }; m.push_back( e ); }
        break;
    case 6: // one colour and one transform for many entities
        { AEnt e; e.type = 314; e.params = { Val::R( 1, 0 ), Val::R( 2, 0 ), Val::R( 3, 0 ), Val::S( "c" ) }; e.use = 2; m.push_back( e ); m.push_back( ident() ); }
        for( int i = 0; i < n; ++i ) { AEnt e = line( i ); e.colorEnt = 0; e.xform = 1; m.push_back( e ); }
        break;
    default: // two levels of pointers fanning out and in again
        n = s.range( 2, 60 );
        for( int i = 0; i < 2 * n; ++i ) { AEnt e = line( i ); int j = nxt( i / 2 ); if( j >= 0 ) { e.props.push_back( 2 * j ); e.props.push_back( 2 * j + 1 ); } m.push_back( e ); }
        break;
    }
    c.nontrivial = true;
    c.label( n > 100 ? "more than 100 links" : "few links" );
    GlobalVals g;
    std::string text = writeIges( {}, g, m, s, false );
    runOn( text, s, c );
}
PROPERTY( "C04", "structured", "file with a chain, lattice or fan of references", 4000, 60000, structured );
}
