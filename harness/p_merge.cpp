#include "units.h"
#include <memory>

// C07: merging models
namespace
{
struct Mod
{
    std::unique_ptr<IGES> ig;
    std::vector<AEnt> m;
    std::vector<int> lo, hi;                // admissible line weights
    std::vector<IGES_ENTITY*> ents;         // empty for a model which was loaded
    GlobalVals g;
    std::string file;                       // name of the file it was loaded from
    bool loaded = false;
};

void weights( Src& s, Mod& x )
{
    x.lo.clear(); x.hi.clear();
    for( auto& e : x.m ) { if( e.lw > 0 ) e.lw = s.range( 1, x.g.gradations ); x.lo.push_back( e.lw ); x.hi.push_back( e.lw ); }
}

Mod make( Src& s, Ctx& c, int no, bool solids )
{
    Mod x; GenOpts o; o.maxThings = 4;
    o.res = s.pick( std::vector<double>{ 1e-8, 1e-6, 1e-5, 1e-3 } );
    x.loaded = s.chance( 1, 3 );
    if( x.loaded ) { o.foreign = true; o.brep = solids; }
    x.m = genModel( s, o );
    x.g = genGlobals( s, x.loaded ); x.g.minRes = o.res; x.g.maxLW = 0.5;
    if( s.chance( 1, 4 ) ) x.g.scale = s.range( 1, 100000 ) * 1e-3;
    if( s.chance( 1, 15 ) ) { x.g.unit = 3; x.g.unitName = "FURLONG"; }
    else if( s.flip() ) { x.g.unit = 2; x.g.unitName = "MM"; x.g.scale = 1; }
    weights( s, x );
    x.ig.reset( new IGES );
    if( x.loaded )
    {
        x.file = strf( "%s%d.igs", s.flip() ? "part" : "my.part", no );
        std::string f = c.path( x.file );
        writeFile( f, writeIges( {}, x.g, x.m, s, true ) );
        REQ( x.ig->Read( f.c_str() ), "Read() rejects a conforming file\n" << readFile( f ) );
        for( auto& e : x.m ) e.assoc.clear();
        double k = 1;
        if( x.g.scale < 0.9999998 || x.g.scale > 1.000001 ) { k /= x.g.scale; x.g.scale = 1; }
        if( x.g.unit != 3 ) { k *= UNITMM[x.g.unit]; x.g.unit = 2; }
        multiply( x.m, k ); x.g.minRes *= k;
        // what is dropped on reading is gone
    }
    else
    {
        setGlobals( *x.ig, x.g );
        if( x.g.unit == 3 ) x.ig->globalData.unitsName = x.g.unitName;
        buildModel( *x.ig, x.m, x.ents );
        if( s.chance( 1, 4 ) ) { x.file = s.pick( std::vector<std::string>{ "board.igs", "a.b.iges", "noext", ".igs" } ); x.ig->globalData.fileName = x.file; }
    }
    return x;
}

std::vector<int> parents( const std::vector<AEnt>& m, int i )
{
    std::vector<int> r;
    for( size_t k = 0; k < m.size(); ++k )
    {
        const AEnt& e = m[k]; bool p = e.xform == i || e.colorEnt == i || e.structEnt == i || e.viewEnt == i || e.lassocEnt == i || e.lfpEnt == i;
        for( auto& v : e.params ) p |= ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i == i;
        for( int q : e.props ) p |= q == i;
        if( p && !( e.dead ) ) r.push_back( (int)k );
    }
    return r;
}

// the entities which represent the model within an assembly
std::vector<int> representatives( const std::vector<AEnt>& m )
{
    std::vector<int> sub, surf, solid;
    for( size_t i = 0; i < m.size(); ++i )
    {
        if( m[i].dead ) continue;
        std::vector<int> p = parents( m, (int)i );
        if( m[i].type == 144 && p.empty() ) surf.push_back( (int)i );
        if( m[i].type == 408 && ( p.empty() || ( p.size() == 1 && m[p[0]].type == 308 && parents( m, p[0] ).empty() ) ) ) sub.push_back( (int)i );
        if( m[i].type == 186 ) solid.push_back( (int)i );
    }
    return sub.size() ? sub : surf.size() ? surf : solid;
}

int depthOf( const std::vector<AEnt>& m, const std::vector<int>& mem )
{
    int d = 0;
    for( int k : mem ) if( m[k].type == 408 ) d = std::max<int>( d, 1 + (int)m[m[k].params[0].i].params[0].i );
    return d;
}

// appends the content of x to y as the library documents it; position of the new subfigure is returned
int append( Mod& y, Mod& x, double f, const std::string& name )
{
    multiply( x.m, f );
    std::vector<int> rep = representatives( x.m );
    int base = (int)y.m.size();
    std::vector<int> order = rep, pos( x.m.size(), -1 );
    for( size_t i = 0; i < x.m.size(); ++i ) if( std::find( rep.begin(), rep.end(), (int)i ) == rep.end() ) order.push_back( (int)i );
    for( size_t k = 0; k < order.size(); ++k ) pos[order[k]] = base + 1 + (int)k;
    AEnt s; s.type = 308; s.use = 2;
    s.params = { Val::I( depthOf( x.m, rep ) ), Val::S( name ), Val::I( (long)rep.size() ) };
    for( int k : rep ) s.params.push_back( Val::P( pos[k] ) );
    y.m.push_back( s ); y.lo.push_back( 0 ); y.hi.push_back( 0 );
    double q = (double)y.g.gradations / x.g.gradations;
    for( int k : order )
    {
        AEnt e = x.m[k];
        auto fx = [&]( int& p ) { if( p >= 0 ) p = pos[p]; };
        fx( e.xform ); fx( e.colorEnt ); fx( e.structEnt ); fx( e.viewEnt ); fx( e.lassocEnt ); fx( e.levelEnt ); fx( e.lfpEnt );
        for( auto& v : e.params ) if( ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i >= 0 ) v.i = pos[v.i];
        for( auto& p : e.assoc ) p = pos[p];
        for( auto& p : e.props ) p = pos[p];
        if( std::find( rep.begin(), rep.end(), k ) != rep.end() ) e.dep = 1;
        y.m.push_back( e );
        int lo = x.lo[k], hi = x.hi[k];
        if( hi > 0 ) { lo = std::max( 1, (int)floor( lo * q - 1e-9 ) ); hi = std::max( 1, (int)ceil( hi * q + 1e-9 ) ); }
        y.lo.push_back( lo ); y.hi.push_back( hi );
    }
    return base;
}


void checkSaved( Ctx& c, Mod& x, const char* what, bool reread )
{
    std::string f = c.path( "out.igs" );
    std::vector<AEnt> live = x.m;
    int n = 0; for( auto& e : live ) n += !e.dead;
    bool w = x.ig->Write( f.c_str(), true );
    for( size_t i = 0; i < x.ents.size(); ++i ) if( x.m[i].dead ) x.ents[i] = NULL;
    if( !n ) return;
    x.file = "out.igs";
    REQ( w, "Write() failed for " << what );
    // arcs in the parameter space of a surface have no unit; a coarse resolution turns them into points
    if( x.g.minRes < 1e-14 ) reread = false;    // smaller than the distances which the library can tell apart
    if( x.g.minRes > 1e-2 ) { std::vector<char> uv = uvSpace( x.m ); for( size_t i = 0; i < x.m.size(); ++i ) if( uv[i] && x.m[i].type == 100 ) reread = false; }
    int rounds = reread ? 2 : 1;
    for( int r = 1; r <= rounds; ++r )
    {
        PDoc d; std::string text = readFile( f ); parseIges( text, d );
        REQ( d.problems.empty(), what << ": the file is not well-formed:\n" << probs( d ) );
        size_t k = 0;
        Scaled want = scaled( x.m, 1.0, x.g.minRes, r );
        if( r > 1 ) for( auto& e : want.m ) for( auto& v : e.params ) v.tol *= 2;
        for( size_t i = 0; i < want.m.size(); ++i )
        {
            if( want.m[i].dead ) continue;
            if( k < d.ents.size() && d.ents[k].lw >= x.lo[i] && d.ents[k].lw <= x.hi[i] ) want.m[i].lw = d.ents[k].lw; else want.m[i].lw = x.lo[i];
            ++k;
        }
        std::string z = compareScaled( want, d );
        REQ( z.empty(), what << ( r > 1 ? " after reading it back" : "" ) << " is wrong: " << z << "\nfile:\n" << text );
        if( r == rounds ) break;
        IGES ig;
        REQ( ig.Read( f.c_str() ), "Read() rejects the file of " << what << "\n" << text );
        if( x.g.unit != 3 ) REQ( ig.ConvertUnits( (IGES_UNIT)x.g.unit ), "ConvertUnits() failed" );
        REQ( ig.ChangeModelScale( x.g.scale ), "ChangeModelScale() failed" );
        ig.globalData.minResolution = x.g.minRes;
        REQ( ig.Write( f.c_str(), true ), "Write() failed after reading " << what << " back" );
    }
}

void merging( Src& s, Ctx& c )
{
    bool solids = s.chance( 1, 3 );
    std::vector<Mod> mods; int n = s.range( 2, 4 );
    for( int i = 0; i < n; ++i ) { mods.push_back( make( s, c, i, solids ) ); c.desc += strf( "--- model %d (%s%s) unit %d scale %g resolution %g gradations %d\n", i, mods.back().loaded ? "loaded " : "built ", mods.back().file.c_str(), mods.back().g.unit, mods.back().g.scale, mods.back().g.minRes, mods.back().g.gradations ) + describe( mods.back().m ); }
    int moved = 0, merges = 0, steps = s.range( 1, n );
    std::set<std::string> names;
    for( int k = 0; k < steps && mods.size() > 1; ++k )
    {
        size_t a = s.draw( (uint32_t)mods.size() ), b = ( a + 1 + s.draw( (uint32_t)mods.size() - 1 ) ) % mods.size();
        Mod& x = mods[a]; Mod& y = mods[b];
        IGES_ENTITY_308* p = (IGES_ENTITY_308*)0x10;
        if( s.chance( 1, 12 ) )
        {
            switch( s.draw( 3 ) )
            {
            case 0: c.desc += "Export to nothing\n"; REQ( !x.ig->Export( NULL, &p ), "Export() to nothing succeeds" ); break;
            case 1: c.desc += "Export without a handle\n"; REQ( !x.ig->Export( y.ig.get(), NULL ), "Export() without a handle succeeds" ); break;
            default: c.desc += "Export to itself\n"; REQ( !x.ig->Export( x.ig.get(), &p ), "Export() to itself succeeds" ); break;
            }
            checkSaved( c, x, "a model after a refused export", false );
            continue;
        }
        bool can = ( x.g.unit == 3 ) == ( y.g.unit == 3 );
        c.desc += strf( "Export of model %zu to model %zu\n", a, b );
        bool ok = x.ig->Export( y.ig.get(), &p );
        REQ( ok == ( can || x.m.empty() ), "Export() returns " << ok << ", expected " << can );
        if( !ok )
        {
            checkSaved( c, x, "the source of a failed export", false );
            checkSaved( c, y, "the receiver of a failed export", false );
            continue;
        }
        double f = can ? UNITMM[x.g.unit] / UNITMM[y.g.unit] * y.g.scale / x.g.scale : 1;
        std::vector<int> rep = representatives( x.m );
        c.label( rep.empty() ? "nothing to package" : strf( "packaged type %d", x.m[rep[0]].type ) );
        if( rep.empty() )
        {
            REQ( !p, "Export() of a model without assemblies, trimmed surfaces and solids gives a subfigure" );
            multiply( x.m, f ); x.g.minRes *= f; x.g.unit = y.g.unit; x.g.scale = y.g.scale;
            for( size_t i = 0; i < x.m.size(); ++i ) if( x.hi[i] > 0 ) { double q = (double)y.g.gradations / x.g.gradations; x.lo[i] = std::min( x.lo[i], std::max( 1, (int)floor( x.lo[i] * q - 1e-9 ) ) ); x.hi[i] = std::max( x.hi[i], (int)ceil( x.hi[i] * q + 1e-9 ) ); }
            checkSaved( c, x, "a model which cannot be packaged", false );
            continue;
        }
        REQ( p, "Export() gives no subfigure" );
        REQ( p->GetParentIGES() == y.ig.get(), "the new subfigure belongs to another model" );
        std::string name = p->NAME, stem = x.file;
        REQ( !name.empty(), "the new subfigure has no name" );
        if( x.file.size() ) { size_t q = stem.rfind( '.' ); if( q != std::string::npos && q > 0 ) stem = stem.substr( 0, q ); REQ( name == stem, "the new subfigure is called '" << name << "', expected '" << stem << "'" ); }
        else REQ( names.insert( name ).second, "the generated name '" << name << "' was used before" );
        for( auto e : x.ents ) if( e ) REQ( e->GetParentIGES() == y.ig.get(), "an entity of type " << e->GetEntityType() << " was not transferred" );
        for( auto e : y.ents ) if( e ) REQ( e->GetParentIGES() == y.ig.get(), "an entity of the receiver belongs to another model" );
        for( auto& e : x.m ) moved += !e.dead;
        y.g.minRes = std::min( y.g.minRes, x.g.minRes * f );
        REQ( fabs( y.ig->globalData.minResolution - y.g.minRes ) <= 1e-9 * y.g.minRes, "the receiver has resolution " << y.ig->globalData.minResolution << ", but the finer one of both models is " << y.g.minRes );
        int sub = append( y, x, f, name );
        std::vector<IGES_ENTITY*> moved_ents = x.ents;
        ++merges;
        int inst = s.range( 1, 2 );
        for( int q = 0; q < inst; ++q )
        {
            IGES_ENTITY* e = NULL;
            REQ( y.ig->NewEntity( 408, &e ), "NewEntity() failed" );
            IGES_ENTITY_408* u = dynamic_cast<IGES_ENTITY_408*>( e );
            AEnt i; i.type = 408; double v[4] = { s.real( 1000 ), s.real( 1000 ), s.real( 1000 ), s.pick( std::vector<double>{ 1.0, 2.0, 0.25 } ) };
            u->X = v[0]; u->Y = v[1]; u->Z = v[2]; u->S = v[3];
            REQ( u->SetDE( p ), "the new subfigure cannot be instantiated" );
            i.params = { Val::P( sub ) }; for( double t : v ) i.params.push_back( Val::R( t, 0 ) );
            y.m.push_back( i ); y.lo.push_back( 0 ); y.hi.push_back( 0 );
        }
        y.ents.clear();     // entities may be dropped when the model is saved
        if( s.flip() )
        {
            // the source can be used again
            x.m.clear(); x.ents.clear();
            GenOpts o; o.maxThings = 2; o.res = 1e-6;
            std::vector<AEnt> m2 = genModel( s, o );
            x.g.unit = (int)x.ig->globalData.unitsFlag; x.g.scale = x.ig->globalData.modelScale;
            REQ( x.g.unit == y.g.unit && x.g.scale == y.g.scale, "the source has unit " << x.g.unit << " and scale " << x.g.scale << " after the export" );
            x.g.minRes = 1e-6; x.ig->globalData.minResolution = 1e-6;
            x.m = m2; weights( s, x ); buildModel( *x.ig, x.m, x.ents );
            checkSaved( c, x, "a model built after the export", false ); x.ents.clear();
        }
        else { if( s.flip() ) checkSaved( c, mods[b], "the receiver", false ); mods.erase( mods.begin() + a ); }
    }
    c.nontrivial = moved >= 3 && merges >= 1;
    if( merges > 1 ) c.label( "chain of merges" );
    for( size_t i = 0; i < mods.size(); ++i ) checkSaved( c, mods[i], "a merged model", true );
}
PROPERTY( "C07", "merge", "at least one merge which moves 3 or more entities", 30000, 800000, merging );
}
