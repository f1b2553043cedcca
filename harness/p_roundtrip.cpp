#include "model.h"

static std::string probs( const PDoc& d ) { std::string o; for( auto& p : d.problems ) o += "  " + p + "\n"; return o; }

// C01: what was built through the API is what the file says
static void writeFaithful( Src& s, Ctx& c )
{
    GenOpts o; o.res = s.pick( std::vector<double>{ 1e-8, 1e-6, 1e-5, 1e-3 } );
    if( s.chance( 1, 5 ) ) o.lim = 1e6;
    std::vector<AEnt> m = genModel( s, o );
    if( s.flip() ) shuffleModel( s, m );
    GlobalVals g = genGlobals( s, false ); g.minRes = o.res; g.maxLW = 0.5; if( g.gradations < 1 ) g.gradations = 1;
    c.desc = strf( "delimiters '%c' '%c' resolution %g\n", g.pd, g.rd, g.minRes ) + describe( m );
    for( auto& e : m ) c.label( strf( "type %d", e.type ) );
    c.nontrivial = m.size() >= 3;
    IGES ig; setGlobals( ig, g );
    std::vector<IGES_ENTITY*> ents;
    buildModel( ig, m, ents );
    std::string f = c.path( "a.igs" );
    REQ( ig.Write( f.c_str(), true ), "Write() failed for a valid model" );
    PDoc d; std::string text = readFile( f );
    parseIges( text, d );
    REQ( d.problems.empty(), "written file is not well-formed:\n" << probs( d ) );
    std::string r = compareDoc( m, d );
    REQ( r.empty(), "written file differs from the model: " << r );
}
PROPERTY( "C01", "write", "model with 3 or more entities", 60000, 1500000, writeFaithful );

// C01: what was written is what comes back
static void rereadFaithful( Src& s, Ctx& c )
{
    GenOpts o; o.res = s.pick( std::vector<double>{ 1e-8, 1e-6, 1e-5, 1e-3 } );
    if( s.chance( 1, 5 ) ) o.lim = 1e6;
    std::vector<AEnt> m = genModel( s, o );
    if( s.flip() ) shuffleModel( s, m );
    GlobalVals g = genGlobals( s, false ); g.minRes = o.res; g.maxLW = 0.5; g.scale = 1.0; g.unit = 2;
    c.desc = strf( "delimiters '%c' '%c' resolution %g\n", g.pd, g.rd, g.minRes ) + describe( m );
    c.nontrivial = m.size() >= 3;
    std::string f = c.path( "a.igs" ), f2 = c.path( "b.igs" ), f3 = c.path( "c.igs" );
    {
        IGES ig; setGlobals( ig, g );
        std::vector<IGES_ENTITY*> ents;
        buildModel( ig, m, ents );
        REQ( ig.Write( f.c_str(), true ), "Write() failed for a valid model" );
    }
    IGES r;
    REQ( r.Read( f.c_str() ), "Read() rejects a file which Write() produced" );
    r.globalData.minResolution = o.res;
    REQ( r.Write( f2.c_str(), true ), "Write() failed after reading the file back" );
    PDoc d; parseIges( readFile( f2 ), d );
    REQ( d.problems.empty(), "rewritten file is not well-formed:\n" << probs( d ) );
    // one more conversion to text: values move by at most the declared resolution once more
    for( auto& e : m ) for( auto& v : e.params ) v.tol *= 2;
    std::string x = compareDoc( m, d );
    REQ( x.empty(), "after Write, Read, Write the file differs from the model: " << x );
}
PROPERTY( "C01", "reread", "model with 3 or more entities", 60000, 1500000, rereadFaithful );
