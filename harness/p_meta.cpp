#include "model.h"
#include <cstring>

// C03: metadata of the start and global sections

static std::string probs( const PDoc& d ) { std::string o; for( auto& p : d.problems ) o += "  " + p + "\n"; return o; }
static const double UNITMM[] = { 0, 25.4, 1.0, 1.0, 304.8, 1609344.0, 1000.0, 1e6, 0.0254, 0.001, 10.0, 2.54e-5 };
static const char* UNITNM[] = { "", "IN", "MM", "", "FT", "MI", "M", "KM", "MIL", "UM", "CM", "UIN" };
static std::string rtrim( std::string s ) { while( !s.empty() && s.back() == ' ' ) s.pop_back(); return s; }
static bool near( double a, double b, double rel ) { return std::fabs( a - b ) <= rel * std::max( std::fabs( a ), std::fabs( b ) ) + 1e-300; }

static GlobalVals metaGlobals( Src& s )
{
    GlobalVals g = genGlobals( s, true );
    g.minRes = s.pick( std::vector<double>{ 1e-8, 1e-3, 1e-5, 0.0254, 1e-10, 1e-11, 0.5, 2.5e-7 } );
    g.note = s.flip() ? "" : genText( s, 80 );
    g.maxLW = s.pick( std::vector<double>{ 0.5, 0.01, 1.0, 3.25, 12.7, 100.0, 0.000125 } );
    g.gradations = s.chance( 1, 3 ) ? s.range( 1, 32000 ) : g.gradations;
    if( s.chance( 1, 10 ) ) { g.unit = 3; g.unitName = genText( s, 12 ); }
    if( s.chance( 1, 4 ) ) g.scale = s.range( 1, 9999 ) * pow( 10.0, s.range( -6, 2 ) );
    return g;
}

static std::vector<std::string> metaStart( Src& s )
{
    std::vector<std::string> st;
    int n = s.range( 0, 4 );
    for( int i = 0; i < n; ++i )
    {
        if( s.chance( 1, 6 ) ) { std::string t = genHeaderLine( s ) + "a" + genHeaderLine( s ) + "b" + genHeaderLine( s ); st.push_back( t ); }   // long line, wrapped
        else { std::string t = genHeaderLine( s ); if( rtrim( t ).empty() ) t = "x"; st.push_back( t ); }
    }
    return st;
}

// what AddToHeader makes of it: lines of 72 characters
static std::vector<std::string> wrapped( const std::vector<std::string>& v )
{
    std::vector<std::string> o;
    for( auto& l : v ) for( size_t i = 0; i < l.size(); i += 72 ) o.push_back( l.substr( i, 72 ) );
    return o;
}

static void setHeader( IGES& ig, const std::vector<std::string>& st )
{
    for( auto& l : st ) { const char* p = l.c_str(); REQ( ig.AddToHeader( p ), "AddToHeader() failed" ); }
}

static void checkHeader( IGES& ig, const std::vector<std::string>& want, const char* when )
{
    size_t n = 77; char const** h = NULL;
    bool ok = ig.GetHeaders( n, h );
    REQ( ok == !want.empty(), "GetHeaders() returns " << ok << " " << when );
    REQ( n == want.size() && ig.GetNHeaderLines() == want.size(), when << ": " << n << " header lines, expected " << want.size() );
    for( size_t i = 0; i < n; ++i ) REQ( rtrim( h[i] ) == rtrim( want[i] ), when << ": header line " << i << " is '" << h[i] << "', expected '" << want[i] << "'" );
}

static void checkFileGlobals( const PDoc& d, const GlobalVals& g, const std::string& fn, const char* when )
{
    auto S = [&]( int k ) { return k - 3 < (int)d.globals.size() ? d.globals[k - 3].s : std::string(); };
    auto I = [&]( int k ) { long v = -999; REQ( k - 3 < (int)d.globals.size() && tokInt( d.globals[k - 3], v ), when << ": global parameter " << k << " is no integer" ); return v; };
    auto R = [&]( int k ) { double v = 0; REQ( k - 3 < (int)d.globals.size() && tokReal( d.globals[k - 3], v, true ), when << ": global parameter " << k << " is no real" ); return v; };
    auto eqS = [&]( int k, const std::string& w ) { REQ( S( k ) == w, when << ": global parameter " << k << " is '" << S( k ) << "', expected '" << w << "'" ); };
    REQ( d.pd == g.pd && d.rd == g.rd, when << ": delimiters are '" << d.pd << "' '" << d.rd << "'" );
    REQ( d.globals.size() >= 23, when << ": only " << d.globals.size() + 2 << " global parameters" );
    eqS( 3, g.productS ); eqS( 4, fn ); eqS( 5, g.nativeSys );
    REQ( !S( 6 ).empty(), "no preprocessor version" );
    REQ( I( 7 ) >= 8 && I( 8 ) >= 4 && I( 9 ) >= 3 && I( 10 ) >= 4 && I( 11 ) >= 3, "number formats out of range" );
    eqS( 12, g.productR );
    REQ( near( R( 13 ), g.scale, 1e-5 ), when << ": scale is " << R( 13 ) << ", expected " << g.scale );
    REQ( I( 14 ) == g.unit, when << ": unit flag is " << I( 14 ) << ", expected " << g.unit );
    eqS( 15, g.unit == 3 ? g.unitName : UNITNM[g.unit] );
    REQ( I( 16 ) == g.gradations, when << ": line width gradations are " << I( 16 ) << ", expected " << g.gradations );
    REQ( near( R( 17 ), g.maxLW, 1e-5 ), when << ": maximum line width is " << R( 17 ) << ", expected " << g.maxLW );
    if( g.created.empty() ) REQ( currentStamp( S( 18 ), "YYYYMMDD.hhmmss" ), when << ": invented creation date is '" << S( 18 ) << "'" ); else eqS( 18, g.created );
    REQ( near( R( 19 ), g.minRes, 1e-5 ), when << ": resolution is " << R( 19 ) << ", expected " << g.minRes );
    eqS( 21, g.author ); eqS( 22, g.org );
    REQ( I( 23 ) >= 3 && I( 23 ) <= 11, when << ": version flag" );
    REQ( I( 24 ) == g.draft, when << ": drafting standard is " << I( 24 ) << ", expected " << g.draft );
    REQ( currentStamp( S( 25 ), "YYYYMMDD.hhmmss" ), when << ": modification date is '" << S( 25 ) << "'" );
    eqS( 26, g.note );
}

// what Read() is expected to leave in memory for a file with these globals: everything in millimetres at scale 1
static void checkLoaded( IGES& ig, const GlobalVals& g, const std::string& fn, const char* when, bool exactVersion )
{
    const IGES_GLOBAL& d = ig.globalData;
    double cf = UNITMM[g.unit] / g.scale;
#define EQ( a, b ) REQ( ( a ) == ( b ), when << ": " #a " is '" << ( a ) << "', expected '" << ( b ) << "'" )
    EQ( d.pdelim, g.pd ); EQ( d.rdelim, g.rd ); EQ( d.productIDSS, g.productS ); EQ( d.fileName, fn ); EQ( d.nativeSystemID, g.nativeSys );
    EQ( d.productIDRS, g.productR ); EQ( d.modelScale, 1.0 ); EQ( (int)d.unitsFlag, g.unit == 3 ? 3 : 2 ); if( g.unit == 3 ) EQ( d.unitsName, g.unitName ); EQ( d.maxLinewidthGrad, g.gradations );
    EQ( d.creationDate, g.created ); EQ( d.author, g.author ); EQ( d.organization, g.org ); EQ( (int)d.draftStandard, g.draft ); EQ( d.applicationNote, g.note );
    REQ( near( d.minResolution, g.minRes * cf, 1e-5 ), when << ": resolution is " << d.minResolution << ", expected " << g.minRes * cf );
    REQ( near( d.maxLinewidth, g.maxLW * UNITMM[g.unit], 1e-5 ), when << ": maximum line width is " << d.maxLinewidth << " mm, expected " << g.maxLW * UNITMM[g.unit] );
    if( exactVersion ) { EQ( d.igesVersion, g.version ); EQ( d.preprocessorVersion, g.preproc ); EQ( d.modificationDate, g.modified );
        EQ( d.nIntegerBits, g.intBits ); EQ( d.floatMaxExp, g.fmax ); EQ( d.floatMaxSig, g.fsig ); EQ( d.doubleMaxExp, g.dmax ); EQ( d.doubleMaxSig, g.dsig ); }
}

static void fill( IGES& ig, Src& s )
{
    int n = s.range( 1, 3 );
    for( int i = 0; i < n; ++i )
    {
        IGES_ENTITY* e = NULL; REQ( ig.NewEntity( 110, &e ) && e, "NewEntity() failed" );
        IGES_ENTITY_110* l = dynamic_cast<IGES_ENTITY_110*>( e ); l->X2 = 100.0 * ( i + 1 );
    }
}

static std::string fname( Src& s, const char* def )
{
    if( !s.chance( 1, 4 ) ) return def;
    std::string t = genText( s, 40 ); for( auto& ch : t ) if( ch == '/' || ch == '\\' || ch == ':' ) ch = '_';
    return "n" + t + "x.igs";
}

// a model object in some earlier state of its life, without entities
static void usedModel( IGES& ig, Src& s, Ctx& c )
{
    switch( s.draw( 5 ) )
    {
    case 0: break;
    case 1: { fill( ig, s ); setGlobals( ig, metaGlobals( s ) ); setHeader( ig, metaStart( s ) ); size_t n; char const** h; ig.GetHeaders( n, h ); ig.Clear(); c.label( "after Clear" ); break; }
    case 2: { GlobalVals g = metaGlobals( s ); setGlobals( ig, g ); setHeader( ig, metaStart( s ) ); size_t n; char const** h; ig.GetHeaders( n, h ); c.label( "metadata preset" ); break; }
    case 3:
    {
        fill( ig, s ); setGlobals( ig, metaGlobals( s ) ); setHeader( ig, metaStart( s ) );
        ig.Write( c.path( "old.igs" ).c_str(), true );
        IGES o; o.Read( c.path( "old.igs" ).c_str() ); o.Clear();
        if( s.flip() ) { ig.Clear(); ig.Read( c.path( "old.igs" ).c_str() ); size_t n; char const** h; ig.GetHeaders( n, h ); ig.Clear(); }
        else ig.Clear();
        c.label( "after Write, Read, Clear" );
        break;
    }
    default:
    {
        writeFile( c.path( "bad.igs" ), std::string( 72, 'x' ) + "S      1\n" + std::string( 72, 'x' ) + "G      1\n" );
        REQ( !ig.Read( c.path( "bad.igs" ).c_str() ), "Read() accepts a broken file" );
        c.label( "after a failed Read" );
    }
    }
}

static void metaWrite( Src& s, Ctx& c )
{
    GlobalVals g = metaGlobals( s );
    std::vector<std::string> st = metaStart( s );
    IGES ig; setGlobals( ig, g ); ig.globalData.unitsName = g.unitName;
    if( s.chance( 1, 5 ) ) { ig.globalData.creationDate = s.pick( std::vector<std::string>{ "", "yesterday", "20151301.120000", "20150431.120000", "2015-01-01.1200", "20150101.240000", "150101:120000", "20150101.1200" } ); g.created = ""; c.label( "without a valid creation date" ); } setHeader( ig, st ); fill( ig, s );
    c.nontrivial = st.size() + !g.author.empty() + !g.org.empty() + !g.note.empty() >= 2;
    c.desc = strf( "delimiters '%c' '%c' unit %d scale %g resolution %g line width %g (%d)\n", g.pd, g.rd, g.unit, g.scale, g.minRes, g.maxLW, g.gradations )
             + "names: '" + g.productS + "' '" + g.nativeSys + "' '" + g.productR + "' '" + g.author + "' '" + g.org + "' '" + g.note + "'\n";
    for( auto& l : st ) c.desc += "header '" + l + "'\n";
    std::vector<std::string> want = wrapped( st );
    checkHeader( ig, want, "before saving" );
    std::string fn = fname( s, "a.igs" ), f = c.path( fn );
    REQ( ig.Write( f.c_str(), true ), "Write() failed" );
    std::string text = readFile( f );
    c.desc += "file:\n" + text;
    PDoc d; parseIges( text, d );
    REQ( d.problems.empty(), "written file is not well-formed:\n" << probs( d ) );
    if( !want.empty() )
    {
        REQ( d.start.size() == want.size(), "start section has " << d.start.size() << " lines, expected " << want.size() );
        for( size_t i = 0; i < want.size(); ++i ) REQ( rtrim( d.start[i] ) == rtrim( want[i] ), "start section line " << i + 1 << " is '" << d.start[i] << "', expected '" << want[i] << "'" );
    }
    else { REQ( !d.start.empty(), "no start section" ); for( auto& l : d.start ) want.push_back( rtrim( l ) ); }
    checkFileGlobals( d, g, fn, "saved file" );
    checkHeader( ig, want, "after saving" );
    if( g.created.empty() ) { g.created = d.globals[15].s; }
    IGES r; usedModel( r, s, c );
    REQ( r.Read( f.c_str() ), "Read() rejects a file which Write() produced" );
    checkHeader( r, want, "after loading" );
    checkLoaded( r, g, fn, "after loading", false );
    // appending keeps what is there
    std::vector<std::string> more = metaStart( s ); setHeader( r, more );
    for( auto& l : wrapped( more ) ) want.push_back( l );
    checkHeader( r, want, "after appending header lines" );
}
PROPERTY( "C03", "write", "two or more of header lines, author, organisation and note present", 150000, 3000000, metaWrite );

static void metaForeign( Src& s, Ctx& c )
{
    GlobalVals g = metaGlobals( s );
    std::vector<std::string> st = metaStart( s ); st = wrapped( st ); if( st.empty() ) st.push_back( "some file" );
    std::vector<AEnt> m( 1 ); m[0].type = 110;
    double res = g.minRes;
    for( double v : { 0.0, 0.0, 0.0, 100.0, 0.0, 0.0 } ) m[0].params.push_back( Val::R( v, res ) );
    GlobalVals e = g;       // expected
    for( int k : { 12, 13, 14, 15, 16, 20, 21, 22, 24, 25, 26 } )
    {
        if( !s.chance( 1, 4 ) ) continue;
        if( k == 15 && g.unit == 3 ) continue;
        g.omit.insert( k );
        switch( k )
        {
        case 12: e.productR = e.productS; break;
        case 13: e.scale = 1.0; break;
        case 14: e.unit = 1; break;
        case 16: e.gradations = 1; break;
        case 20: e.maxCoord = 0; break;
        case 21: e.author = ""; break;
        case 22: e.org = ""; break;
        case 24: e.draft = 0; break;
        case 25: e.modified = ""; break;
        case 26: e.note = ""; break;
        default: break;
        }
    }
    if( s.chance( 1, 4 ) ) { for( int k = s.range( 20, 26 ); k <= 26; ++k ) g.omit.insert( k ); g.cut = true; }
    if( g.omit.count( 20 ) ) e.maxCoord = 0;
    if( g.omit.count( 21 ) ) e.author = "";
    if( g.omit.count( 22 ) ) e.org = "";
    if( g.omit.count( 24 ) ) e.draft = 0;
    if( g.omit.count( 25 ) ) e.modified = "";
    if( g.omit.count( 26 ) ) e.note = "";
    if( g.omit.count( 14 ) ) g.omit.insert( 15 );
    c.nontrivial = g.omit.size() >= 2 || g.unit != 2;
    std::string text = writeIges( st, g, m, s, true );
    c.desc = "file:\n" + text;
    std::string fn = fname( s, "file.igs" ), f = c.path( fn );
    writeFile( f, text );
    PDoc self; parseIges( text, self );
    REQ( self.problems.empty(), "harness: the generated file is malformed\n" << probs( self ) );
    IGES r; usedModel( r, s, c );
    REQ( r.Read( f.c_str() ), "Read() rejects a conforming file" );
    checkHeader( r, st, "after loading" );
    if( g.omit.count( 23 ) ) { REQ( r.globalData.igesVersion == 3 || r.globalData.igesVersion == 11, "version flag is " << r.globalData.igesVersion ); e.version = r.globalData.igesVersion; }
    checkLoaded( r, e, fn, "after loading", true );
    // save it again: same meaning
    double cf = UNITMM[e.unit] / e.scale;
    if( e.minRes * cf < 1e-11 || e.minRes * cf > 1e3 ) return;      // not representable as a resolution in millimetres
    r.globalData.maxLinewidth = std::max( r.globalData.maxLinewidth, 1e-5 );
    GlobalVals w = e; w.unit = e.unit == 3 ? 3 : 2; w.scale = 1; w.minRes = r.globalData.minResolution; w.maxLW = r.globalData.maxLinewidth;
    std::string f2 = c.path( "b.igs" );
    REQ( r.Write( f2.c_str(), true ), "Write() failed after loading" );
    PDoc d; std::string t2 = readFile( f2 ); parseIges( t2, d );
    REQ( d.problems.empty(), "rewritten file is not well-formed:\n" << probs( d ) << t2 );
    checkFileGlobals( d, w, "b.igs", "rewritten file" );
    REQ( d.start.size() == st.size(), "rewritten file: start section has " << d.start.size() << " lines" );
    for( size_t i = 0; i < st.size(); ++i ) REQ( rtrim( d.start[i] ) == rtrim( st[i] ), "rewritten file: start section line " << i + 1 << " is '" << d.start[i] << "'" );
}
PROPERTY( "C03", "foreign", "two or more global parameters defaulted, or a unit other than millimetres", 150000, 3000000, metaForeign );
