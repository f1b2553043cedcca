#include "model.h"

static std::string probs( const PDoc& d ) { std::string o; for( auto& p : d.problems ) o += "  " + p + "\n"; return o; }

// values which have a default in the standard may be left out
static std::vector<AEnt> leaveOut( const std::vector<AEnt>& m, Src& s )
{
    std::vector<AEnt> f = m;
    auto om = [&]( AEnt& e, size_t k, double def ) { if( k < e.params.size() && e.params[k].k == Val::REAL && e.params[k].r == def && s.flip() ) e.params[k] = Val(); };
    for( auto& e : f )
        switch( e.type )
        {
        case 154: for( size_t k : { 2, 3, 4, 5, 6 } ) om( e, k, 0.0 ); om( e, 7, 1.0 ); break;
        case 164: om( e, 2, 0.0 ); om( e, 3, 0.0 ); om( e, 4, 1.0 ); break;
        case 408: om( e, 4, 1.0 ); break;
        case 314: if( e.params.size() > 3 && e.params[3].s.empty() ) e.params[3] = Val(); break;
        default: break;
        }
    for( auto& e : f )
    {
        if( e.assoc.size() || e.props.size() || e.dead ) continue;
        if( e.type != 154 && e.type != 164 && e.type != 408 && e.type != 314 ) continue;
        while( e.params.size() && e.params.back().k == Val::OMIT && s.flip() ) e.params.pop_back();
    }
    return f;
}

// C02: a file in any legal layout is read with its meaning
static void foreignFaithful( Src& s, Ctx& c )
{
    GenOpts o; o.foreign = true; o.brep = true; o.unsupported = s.flip(); o.maxThings = 4;
    o.res = s.pick( std::vector<double>{ 1e-8, 1e-6, 1e-5, 1e-3 } );
    if( s.chance( 1, 5 ) ) o.lim = 1e6;
    std::vector<AEnt> m = genModel( s, o );
    if( s.flip() ) shuffleModel( s, m );
    GlobalVals g = genGlobals( s, true ); g.minRes = o.res; g.maxLW = 0.5; g.scale = 1.0; g.unit = 2; g.unitName = "MM";
    std::vector<AEnt> file = leaveOut( m, s );
    std::vector<std::string> start; int ns = s.range( 0, 3 ); for( int i = 0; i < ns; ++i ) start.push_back( genHeaderLine( s ) );
    std::string text = writeIges( start, g, file, s, true );
    c.desc = describe( m ) + "file:\n" + text;
    int live = 0; for( auto& e : m ) { c.label( strf( "type %d%s", e.type, e.dead ? " (dropped)" : "" ) ); live += !e.dead; }
    c.nontrivial = live >= 3;
    if( !live ) return;
    std::string f = c.path( "a.igs" ), f2 = c.path( "b.igs" ), f3 = c.path( "c.igs" );
    writeFile( f, text );
    PDoc self; parseIges( text, self );
    REQ( self.problems.empty(), "harness: the generated file is malformed\n" << probs( self ) );
    IGES r;
    REQ( r.Read( f.c_str() ), "Read() rejects a conforming file" );
    r.globalData.minResolution = o.res;
    REQ( r.Write( f2.c_str(), true ), "Write() failed for a model which was read from a conforming file" );
    PDoc d; std::string t2 = readFile( f2 ); parseIges( t2, d );
    REQ( d.problems.empty(), "rewritten file is not well-formed:\n" << probs( d ) );
    for( auto& e : m ) { e.assoc.clear(); }     // all associativities are of unsupported types
    std::string x = compareDoc( m, d );
    REQ( x.empty(), "meaning changed by Read and Write: " << x << "\nrewritten file:\n" << t2 );
    // and now nothing changes any more
    IGES r2;
    REQ( r2.Read( f2.c_str() ), "Read() rejects a file which Write() produced\n" << t2 );
    r2.globalData.minResolution = o.res;
    REQ( r2.Write( f3.c_str(), true ), "Write() failed after reading back" );
    std::string t3 = readFile( f3 );
    PDoc d3; parseIges( t3, d3 );
    REQ( d3.problems.empty(), "rewritten file is not well-formed:\n" << probs( d3 ) );
    for( auto& e : m ) for( auto& v : e.params ) v.tol *= 2;
    x = compareDoc( m, d3 );
    REQ( x.empty(), "meaning changed by the second Read and Write: " << x );
}
PROPERTY( "C02", "foreign", "file with 3 or more supported entities", 40000, 600000, foreignFaithful );
