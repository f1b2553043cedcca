#include "units.h"

// C06: the physical geometry does not depend on the units and the scale which describe it
namespace
{
struct Ends { IGES_CURVE* c; bool ok[4]; MCAD_POINT p[4]; };
Ends ends( IGES_CURVE* c )
{
    Ends e; e.c = c;
    e.ok[0] = c->GetStartPoint( e.p[0], false ); e.ok[1] = c->GetEndPoint( e.p[1], false );
    e.ok[2] = c->GetStartPoint( e.p[2], true ); e.ok[3] = c->GetEndPoint( e.p[3], true );
    return e;
}

struct State { int unit; double scale; double f; double minRes, maxCoord; };

void checkGlobals( const PDoc& d, const State& st, const std::string& when )
{
    auto num = [&]( size_t i ) { double v = NAN; if( i - 3 < d.globals.size() ) tokReal( d.globals[i - 3], v, false ); return v; };
    auto str = [&]( size_t i ) { return i - 3 < d.globals.size() ? d.globals[i - 3].s : std::string(); };
    REQ( num( 14 ) == st.unit, when << ": the file has unit " << str( 14 ) << ", expected " << st.unit );
    if( st.unit != 3 ) REQ( str( 15 ) == UNITNM[st.unit], when << ": the unit is called '" << str( 15 ) << "', expected " << UNITNM[st.unit] );
    REQ( fabs( num( 13 ) - st.scale ) <= 1e-13 * st.scale, when << ": the file has model scale " << str( 13 ) << ", expected " << strf( "%.17g", st.scale ) );
    REQ( fabs( num( 19 ) - st.minRes ) <= 1e-5 * st.minRes, when << ": the file has resolution " << str( 19 ) << ", expected " << strf( "%.17g", st.minRes ) );
}

// some conversions, refused ones among them
std::string convert( Src& s, IGES& ig, State& st, int n, std::string& log )
{
    for( int k = 0; k < n; ++k )
    {
        State b = st;
        bool ok, want;
        switch( s.weighted( { 5, 4, 1, 1 } ) )
        {
        case 0:
        {
            int u = s.pick( std::vector<int>{ 2, 1, 4, 5, 6, 7, 8, 9, 10, 11 } );
            want = st.unit != 3;
            if( want ) { double f = UNITMM[st.unit] / UNITMM[u]; st.f *= f; st.unit = u; st.minRes *= f; st.maxCoord *= f; }
            log += strf( "ConvertUnits(%d)\n", u );
            ok = ig.ConvertUnits( (IGES_UNIT)u );
            break;
        }
        case 1:
        {
            double x = s.flip() ? s.pick( std::vector<double>{ 1.0, 0.5, 2.0, 10.0, 0.001, 1000.0 } ) : s.range( 1, 1000000 ) * pow( 10.0, s.range( -9, 1 ) );
            want = x >= 6e-8 && x <= 17000000.0;
            if( want ) { double f = x / st.scale; st.f *= f; st.scale = x; st.minRes *= f; st.maxCoord *= f; }
            log += strf( "ChangeModelScale(%.17g)\n", x );
            ok = ig.ChangeModelScale( x );
            break;
        }
        case 2: want = st.unit == 3; log += "ConvertUnits(EXTERN)\n"; ok = ig.ConvertUnits( UNIT_EXTERN ); break;
        default:
        {
            double x = s.pick( std::vector<double>{ 0.0, -1.0, NAN, INFINITY, 1e-9, 1e9, -INFINITY } );
            want = false; log += strf( "ChangeModelScale(%g)\n", x ); ok = ig.ChangeModelScale( x ); break;
        }
        }
        if( ok != want ) return strf( "the last of these returns %d, expected %d:\n", ok, want ) + log;
        const IGES_GLOBAL& g = ig.globalData;
        if( (int)g.unitsFlag != st.unit ) return strf( "unit is %d after a conversion, expected %d:\n", (int)g.unitsFlag, st.unit ) + log;
        if( !( fabs( g.modelScale - st.scale ) <= 1e-15 * st.scale ) ) return strf( "model scale is %.17g after a conversion, expected %.17g:\n", g.modelScale, st.scale ) + log;
        if( !( fabs( g.minResolution - st.minRes ) <= 1e-12 * st.minRes ) ) return strf( "resolution is %.17g after a conversion, expected %.17g:\n", g.minResolution, st.minRes ) + log;
        if( !( fabs( g.maxCoordinateValue - st.maxCoord ) <= 1e-12 * fabs( st.maxCoord ) ) ) return strf( "maximum coordinate is %.17g after a conversion, expected %.17g:\n", g.maxCoordinateValue, st.maxCoord ) + log;
        if( st.unit != 3 )
        {
            const char* nm = ig.GetUnitName();
            if( !nm || std::string( nm ) != UNITNM[st.unit] ) return strf( "GetUnitName() returns '%s' for unit %d:\n", nm ? nm : "(null)", st.unit ) + log;
        }
    }
    return "";
}

void conversions( Src& s, Ctx& c )
{
    GenOpts o; o.res = s.pick( std::vector<double>{ 1e-8, 1e-6, 1e-5, 1e-3 } );
    std::vector<AEnt> m = genModel( s, o );
    GlobalVals g = genGlobals( s, false ); g.minRes = o.res; g.maxLW = 0.5;
    if( s.chance( 1, 20 ) ) g.unit = 3;
    if( s.chance( 1, 4 ) ) g.scale = s.range( 1, 100000 ) * 1e-3;
    IGES ig; setGlobals( ig, g );
    if( g.unit == 3 ) ig.globalData.unitsName = "FURLONG";
    std::vector<IGES_ENTITY*> ents;
    buildModel( ig, m, ents );
    State st{ g.unit, g.scale, 1.0, g.minRes, g.maxCoord };
    std::string log; int n = s.range( 1, 4 );
    c.desc = strf( "unit %d scale %g resolution %g\n", g.unit, g.scale, g.minRes ) + describe( m );
    std::vector<Ends> before; std::vector<char> uv = uvSpace( m ), bent;
    for( size_t i = 0; i < m.size(); ++i ) { IGES_CURVE* q = dynamic_cast<IGES_CURVE*>( ents[i] ); if( q && !uv[i] ) before.push_back( ends( q ) ); }
    std::string r = convert( s, ig, st, n, log );
    c.desc += log;
    REQ( r.empty(), r );
    c.nontrivial = m.size() >= 3 && ( st.f > 1.01 || st.f < 0.99 );
    c.label( st.f > 1.01 ? "enlarged" : st.f < 0.99 ? "reduced" : "same" );
    for( auto& e : m ) c.label( strf( "type %d", e.type ) );
    for( auto& b : before )
    {
        Ends a = ends( b.c );
        static const char* nm[] = { "GetStartPoint()", "GetEndPoint()", "GetStartPoint(transformed)", "GetEndPoint(transformed)" };
        for( int k = 0; k < 4; ++k )
        {
            REQ( a.ok[k] == b.ok[k], nm[k] << " of a curve of type " << b.c->GetEntityType() << " returns " << a.ok[k] << " after the conversion, " << b.ok[k] << " before" );
            if( !a.ok[k] ) continue;
            double dx = a.p[k].x - st.f * b.p[k].x, dy = a.p[k].y - st.f * b.p[k].y, dz = a.p[k].z - st.f * b.p[k].z;
            double sz = fabs( b.p[k].x ) + fabs( b.p[k].y ) + fabs( b.p[k].z ) + 2 * o.lim;
            REQ( sqrt( dx * dx + dy * dy + dz * dz ) <= 1e-12 * st.f * sz, nm[k] << " of a curve of type " << b.c->GetEntityType() << " is " << a.p[k].x << ", " << a.p[k].y << ", " << a.p[k].z << " after the conversion; before it was "
                 << b.p[k].x << ", " << b.p[k].y << ", " << b.p[k].z << " and the factor is " << st.f );
        }
    }
    std::string f = c.path( "a.igs" );
    REQ( ig.Write( f.c_str(), true ), "Write() failed after a conversion" );
    PDoc d; std::string text = readFile( f ); parseIges( text, d );
    REQ( d.problems.empty(), "written file is not well-formed:\n" << probs( d ) );
    checkGlobals( d, st, "after the conversion" );
    r = compareScaled( scaled( m, st.f, o.res, 1 ), d );
    REQ( r.empty(), "the conversion by " << st.f << " changed the geometry: " << r );
}
PROPERTY( "C06", "convert", "model of 3 or more entities whose numbers change by more than 1 %", 80000, 2000000, conversions );

// loading a file in any unit and scale
void loading( Src& s, Ctx& c )
{
    GenOpts o; o.foreign = true; o.brep = true; o.maxThings = 4;
    o.res = s.pick( std::vector<double>{ 1e-8, 1e-6, 1e-5, 1e-3 } );
    std::vector<AEnt> m = genModel( s, o );
    GlobalVals g = genGlobals( s, true ); g.minRes = o.res; g.maxLW = 0.5;
    if( s.chance( 1, 3 ) ) g.scale = s.range( 1, 100000 ) * 1e-3;
    c.desc = strf( "unit %d scale %g resolution %g\n", g.unit, g.scale, g.minRes ) + describe( m );
    std::string text = writeIges( {}, g, m, s, true );
    std::string f = c.path( "a.igs" ), f2 = c.path( "b.igs" );
    writeFile( f, text );
    IGES ig;
    REQ( ig.Read( f.c_str() ), "Read() rejects a conforming file\n" << text );
    bool sc = g.scale < 0.9999998 || g.scale > 1.000001;
    double k = UNITMM[g.unit] / ( sc ? g.scale : 1.0 );
    State st{ 2, sc ? 1.0 : g.scale, k, g.minRes * k, g.maxCoord * k };
    c.nontrivial = m.size() >= 3 && ( k > 1.01 || k < 0.99 );
    std::string log = "Read()\n";
    REQ( (int)ig.globalData.unitsFlag == st.unit && ig.globalData.modelScale == st.scale, "after loading the unit is " << (int)ig.globalData.unitsFlag << ", the scale " << ig.globalData.modelScale );
    REQ( fabs( ig.globalData.minResolution - st.minRes ) <= 1e-12 * st.minRes, "after loading the resolution is " << ig.globalData.minResolution << " mm, expected " << st.minRes );
    std::string r = convert( s, ig, st, s.range( 0, 2 ), log );
    c.desc += log;
    REQ( r.empty(), r );
    REQ( ig.Write( f2.c_str(), true ), "Write() failed after loading and converting" );
    PDoc d; std::string t2 = readFile( f2 ); parseIges( t2, d );
    REQ( d.problems.empty(), "written file is not well-formed:\n" << probs( d ) );
    checkGlobals( d, st, "after loading and converting" );
    for( auto& e : m ) e.assoc.clear();
    r = compareScaled( scaled( m, st.f, o.res, 2 ), d );
    REQ( r.empty(), "loading and converting by " << st.f << " changed the geometry: " << r << "\nfile:\n" << text );
}
PROPERTY( "C06", "load", "file with 3 or more entities in units or at a scale which differ from 1 mm by more than 1 %", 40000, 1000000, loading );
}
