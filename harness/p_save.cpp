#include "model.h"
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <locale>
#include <clocale>
#include <limits>
#include <memory>
#include <iostream>

// C08: saving is all or nothing as far as the return value tells, and does not depend on the environment
namespace
{
std::string probs( const PDoc& d ) { std::string o; for( auto& p : d.problems ) o += "  " + p + "\n"; return o; }

// the text with the date of modification (parameter 25) blanked out
std::string normal( const std::string& text )
{
    PDoc d; parseIges( text, d );
    if( !d.problems.empty() ) return "ill-formed file:\n" + probs( d ) + text;
    std::string o;
    size_t p = 0;
    while( p < text.size() )
    {
        size_t e = text.find( '\n', p ); if( e == std::string::npos ) e = text.size();
        std::string l = text.substr( p, e - p ); p = e + 1;
        if( l.size() > 72 && l[72] == 'G' ) continue;
        o += l + "\n";
    }
    for( size_t i = 0; i < d.globals.size(); ++i ) if( i != 22 ) o += ( d.globals[i].str ? "s " : "n " ) + d.globals[i].s + "\n";
    return o;
}

struct Punct : std::numpunct<char>
{
    char dp, ts; std::string g;
    Punct( char d, char t, const std::string& gr ) : dp( d ), ts( t ), g( gr ) {}
    char do_decimal_point() const override { return dp; }
    char do_thousands_sep() const override { return ts; }
    std::string do_grouping() const override { return g; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};

struct Restore      // whatever a case changes in the process
{
    std::locale loc; std::string cl; rlimit rl; uid_t eu;
    Restore() : cl( setlocale( LC_ALL, NULL ) ), eu( geteuid() ) { getrlimit( RLIMIT_FSIZE, &rl ); signal( SIGXFSZ, SIG_IGN ); }
    ~Restore()
    {
        if( geteuid() != eu && seteuid( eu ) ) _exit( 2 );
        setrlimit( RLIMIT_FSIZE, &rl ); std::locale::global( loc ); setlocale( LC_ALL, cl.c_str() ); std::cerr.clear(); std::cout.clear();
    }
};

struct M { std::unique_ptr<IGES> ig; std::vector<AEnt> m; GlobalVals g; std::vector<IGES_ENTITY*> ents; std::string src; };

M make( Src& s, Ctx& c )
{
    M x; GenOpts o; o.maxThings = 3; bool load = s.chance( 1, 3 ); o.foreign = load;
    x.m = genModel( s, o ); x.g = genGlobals( s, load );
    for( auto& e : x.m ) if( e.lw > x.g.gradations ) e.lw = x.g.gradations;
    x.ig.reset( new IGES );
    if( load )
    {
        x.src = c.path( "src.igs" ); writeFile( x.src, writeIges( {}, x.g, x.m, s, true ) );
        REQ( x.ig->Read( x.src.c_str() ), "Read() rejects a conforming file\n" << readFile( x.src ) );
    }
    else { setGlobals( *x.ig, x.g ); buildModel( *x.ig, x.m, x.ents ); }
    return x;
}

std::string junk( Src& s, size_t sz )
{
    std::string o; for( size_t i = 0; i < sz; ++i ) o += (char)( ( i * 7 + sz ) % 250 + 1 );
    (void)s; return o;
}
bool exists( const std::string& p ) { struct stat st; return 0 == lstat( p.c_str(), &st ); }

void saving( Src& s, Ctx& c )
{
    Restore restore;
    std::string d1 = c.path( "d1" ), d2 = c.path( "d2" ), name = s.pick( std::vector<std::string>{ "m.igs", "a b.iges", "noext", "x.y.igs" } );
    mkdir( d1.c_str(), 0777 ); mkdir( d2.c_str(), 0777 );
    M x = make( s, c );
    c.desc = describe( x.m );
    std::string ref = d1 + "/" + name, out = d2 + "/" + name;
    REQ( x.ig->Write( ref.c_str(), true ), "Write() of a complete model failed" );
    const std::string text = readFile( ref ), want = normal( text );
    REQ( want.compare( 0, 10, "ill-formed" ), want );
    c.nontrivial = x.m.size() >= 3;
    auto same = [&]( const std::string& f, const std::string& what ) { std::string g = normal( readFile( f ) ); REQ( g == want, what << " produced a different file\n--- got\n" << readFile( f ) << "--- expected\n" << text ); };
    std::vector<size_t> szs{ 0, 1, text.size() - 1, text.size(), text.size() + 1, text.size() * 2 + 81, 100000 };
    const std::string old = junk( s, s.pick( szs ) );
    int sc = s.range( 0, 8 );
    c.desc = strf( "scenario %d\n", sc ) + c.desc;
    switch( sc )
    {
    case 0:     // permission to overwrite
    {
        c.label( "overwrite refused" );
        writeFile( out, old );
        REQ( !x.ig->Write( out.c_str(), false ), "Write( overwrite = false ) claims to have saved to an existing file" );
        REQ( readFile( out ) == old, "Write( overwrite = false ) changed an existing file" );
        std::string out3 = d2 + "/sub"; mkdir( out3.c_str(), 0777 ); unlink( ( out3 + "/" + name ).c_str() );
        out3 += "/" + name;
        REQ( x.ig->Write( out3.c_str(), false ), "Write( overwrite = false ) fails for a new file after an earlier refusal" );
        same( out3, "Write() after a refused one" );
        break;
    }
    case 1:
        c.label( "overwrite" );
        writeFile( out, old );
        REQ( x.ig->Write( out.c_str(), true ), "Write( overwrite = true ) fails" );
        same( out, "overwriting an existing file" );
        REQ( x.ig->Write( out.c_str(), true ), "second Write( overwrite = true ) fails" );
        same( out, "saving again" );
        break;
    case 2:     // a model which cannot be saved
    {
        const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
        double bad = s.pick( std::vector<double>{ nan, inf, -inf } );
        double bad2 = s.pick( std::vector<double>{ nan, inf, -inf, 0.0, -1.0 } );
        IGES_ENTITY* e = NULL; REQ( x.ig->NewEntity( ENT_LINE, &e ) && e, "NewEntity" );
        IGES_ENTITY_110* l = (IGES_ENTITY_110*)e; l->X2 = 1; l->Y2 = 2;
        int k = s.range( 0, 8 );
        IGES_GLOBAL& g = x.ig->globalData;
        double sm = g.modelScale, sl = g.maxLinewidth, sr = g.minResolution; int sn = g.maxLinewidthGrad; std::string dt = g.creationDate;
        switch( k )
        {
        case 0: l->X1 = bad; break;
        case 1: l->Y2 = bad; break;
        case 2: l->Z2 = bad; break;
        case 3: g.modelScale = bad2; break;
        case 4: g.maxLinewidth = bad; break;
        case 5: g.minResolution = bad2; break;
        case 6: g.maxLinewidthGrad = -s.range( 0, 9 ); break;
        case 7: l->Z1 = bad; break;
        case 8: g.creationDate = "yesterday"; break;
        }
        c.desc += strf( "defect %d value %g/%g\n", k, bad, bad2 );
        bool there = s.chance( 3, 4 ); unlink( out.c_str() );
        if( there ) writeFile( out, old );
        bool ok = x.ig->Write( out.c_str(), true );
        if( !ok )
        {
            c.label( "unsavable" );
            REQ( exists( out ) == there, "Write() fails but " << ( there ? "removes" : "creates" ) << " the file" );
            if( there ) REQ( readFile( out ) == old, "Write() fails but has overwritten the existing file" );
        }
        else
        {
            c.label( "unsavable accepted" );
            PDoc d; parseIges( readFile( out ), d );
            REQ( d.problems.empty(), "Write() succeeds but the file is not well-formed:\n" << probs( d ) );
            IGES b; REQ( b.Read( out.c_str() ), "Write() succeeds but the file cannot be read\n" << readFile( out ) );
        }
        // repaired, the model can be saved
        l->X1 = l->Y1 = l->Z1 = l->Y2 = l->Z2 = 0; g.modelScale = sm; g.maxLinewidth = sl; g.minResolution = sr; g.maxLinewidthGrad = sn; g.creationDate = dt;
        REQ( x.ig->DelEntity( e ), "DelEntity" );
        REQ( x.ig->Write( out.c_str(), true ), "the model cannot be saved after the defect was removed" );
        same( out, "saving after a failure" );
        break;
    }
    case 3: case 4:    // the disk is full
    {
        c.label( "disk full" );
        unlink( out.c_str() );
        if( s.flip() ) writeFile( out, old );
        size_t lim = s.chance( 1, 2 ) ? (size_t)( text.size() + s.range( -3, 2 ) ) : (size_t)s.draw( (uint32_t)text.size() );
        rlimit rl = restore.rl; rl.rlim_cur = lim;
        REQ( 0 == setrlimit( RLIMIT_FSIZE, &rl ), "setrlimit" );
        bool ok = x.ig->Write( out.c_str(), true );
        setrlimit( RLIMIT_FSIZE, &restore.rl ); std::cerr.clear(); std::cout.clear();
        bool full = readFile( out ).size() >= text.size() && normal( readFile( out ) ) == want;
        c.desc += strf( "room for %zu of %zu bytes\n", lim, text.size() );
        REQ( ok == ( lim >= text.size() ), "Write() returns " << ok << " although there is room for " << lim << " of " << text.size() << " bytes" );
        REQ( !ok || full, "Write() reports success but the file is incomplete" );
        if( s.flip() ) REQ( !x.ig->Write( "/dev/full", true ), "Write() to a full device reports success" );
        REQ( x.ig->Write( out.c_str(), true ), "Write() fails after the disk was full" );
        same( out, "saving after the disk was full" );
        break;
    }
    case 5: case 6:    // locales
    {
        std::string grp = s.pick( std::vector<std::string>{ "\3", "\1", "\2\3", std::string( "\3\x7f" ), "" } );
        char dp = s.pick( std::vector<char>{ ',', '.', ';', '\'' } ), ts = s.pick( std::vector<char>{ '.', ',', ' ', '\'' } );
        bool real = s.chance( 1, 2 ), cxx = s.chance( 3, 4 );
        std::string nm = s.pick( std::vector<std::string>{ "de_DE.UTF-8", "fr_FR.UTF-8" } );
        std::string before;
        std::locale mine;
        bool got = real && setlocale( LC_ALL, nm.c_str() );
        // (kept: the C library loses memory whenever a locale is made)
        if( got ) { if( cxx ) { static std::map<std::string, std::locale> made; auto it = made.find( nm ); if( it == made.end() ) it = made.insert( { nm, std::locale( nm.c_str() ) } ).first; std::locale::global( it->second ); } c.label( "real locale" ); }
        else { std::locale::global( std::locale( std::locale( "C" ), new Punct( dp, ts, grp ) ) ); c.label( "facet" ); }
        mine = std::locale(); before = setlocale( LC_ALL, NULL );
        unlink( out.c_str() );
        bool ok = x.ig->Write( out.c_str(), true );
        bool locOk = std::locale() == mine, cOk = before == setlocale( LC_ALL, NULL );
        bool rd = true; IGES b; std::string out3 = d2 + "/again"; mkdir( out3.c_str(), 0777 ); out3 += "/" + name;
        if( ok ) rd = b.Read( out.c_str() );
        bool locOk2 = std::locale() == mine, cOk2 = before == setlocale( LC_ALL, NULL );
        std::locale::global( restore.loc ); setlocale( LC_ALL, restore.cl.c_str() );
        c.desc += strf( "locale %s C++ %d dp %c ts %c\n", got ? nm.c_str() : "facet", cxx, dp, ts );
        REQ( ok, "Write() fails in a different locale" );
        same( out, "saving in a different locale" );
        REQ( rd, "Read() fails in a different locale" );
        REQ( locOk && cOk, "Write() does not restore the locale of the program" );
        REQ( locOk2 && cOk2, "Read() does not restore the locale of the program" );
        IGES b2; REQ( b2.Read( out.c_str() ), "Read() of the library's own file fails" );
        std::string o4 = d1 + "/again"; mkdir( o4.c_str(), 0777 ); o4 += "/" + name;
        bool w1 = b.Write( out3.c_str(), true ), w2 = b2.Write( o4.c_str(), true );
        REQ( w1 == w2, "models read in different locales differ" );
        if( w1 ) REQ( normal( readFile( out3 ) ) == normal( readFile( o4 ) ), "the model read in a different locale is different\n--- got\n" << readFile( out3 ) << "--- expected\n" << readFile( o4 ) );
        break;
    }
    case 7:     // places where no file can be made
    {
        c.label( "no such place" );
        std::string p = s.pick( std::vector<std::string>{ d2 + "/no/such/" + name, d2, ref + "/" + name, std::string( "" ) } );
        REQ( !x.ig->Write( p.c_str(), s.flip() ), "Write() to the impossible path '" << p << "' reports success" );
        REQ( !x.ig->Write( NULL, true ), "Write( NULL ) reports success" );
        REQ( readFile( ref ) == text, "a failing Write() changed another file" );
        unlink( out.c_str() );
        REQ( x.ig->Write( out.c_str(), false ), "Write() fails after a failing one" );
        same( out, "saving after a failure" );
        break;
    }
    case 8:     // permissions
    {
        if( geteuid() != 0 ) { c.label( "not root" ); break; }
        std::string par = c.scratch.substr( 0, c.scratch.rfind( '/' ) );
        chmod( par.c_str(), 0711 ); chmod( c.scratch.c_str(), 0711 ); chmod( d2.c_str(), 0777 );
        bool over = s.flip(); mode_t md = s.pick( std::vector<mode_t>{ 0200, 0400, 0444, 0600, 0222 } );
        writeFile( out, old );
        if( chown( out.c_str(), 65534, 65534 ) || chmod( out.c_str(), md ) || seteuid( 65534 ) ) { c.label( "no privileges" ); unlink( out.c_str() ); break; }
        int rc = access( "/", R_OK ); (void)rc;
        bool ok = x.ig->Write( out.c_str(), over );
        if( seteuid( 0 ) ) _exit( 2 );
        std::string now = readFile( out ); unlink( out.c_str() );
        bool wr = md & 0200;
        c.label( "permissions" );
        c.desc += strf( "mode %o overwrite %d\n", (unsigned)md, over );
        if( !over ) { REQ( !ok, "Write( overwrite = false ) claims to have saved to an existing file of mode " << (int)md ); REQ( now == old, "Write( overwrite = false ) changed an existing file of mode " << (int)md ); }
        else if( !wr ) { REQ( !ok, "Write() to a protected file reports success" ); REQ( now == old, "Write() changed a protected file" ); }
        else { REQ( ok, "Write() to a writable file fails" ); writeFile( out, now ); same( out, "overwriting" ); }
        break;
    }
    }
}
PROPERTY( "C08", "save", "model of 3 or more entities saved over, under or beside existing files, with faults or in a different locale", 60000, 1500000, saving );
}
