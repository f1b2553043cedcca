#include "pbt.h"
#include <memory>
#include <cstring>
#include <deque>
#include <list>
#include <set>
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>
#include <core/iges.h>
#include <core/all_entities.h>
#include <api/dll_iges.h>
#include <api/dll_iges_entity.h>
#include <api/dll_iges_curve.h>
#include <api/all_api_entities.h>
#include <api/dll_mcad_segment.h>
#include <api/dll_mcad_outline.h>
#include <api/dll_iges_geom_pcb.h>
#include <geom/mcad_segment.h>
#include <geom/mcad_outline.h>
#include <geom/iges_geom_pcb.h>

// C19: the handle classes against the core classes. Every operation is carried out twice: on a world which is
// reached through handles only and on a twin which is reached through the core classes. Results, contents, life
// times and written files have to agree.
namespace
{
struct Op { int k, v; unsigned a, b, c; double x[6]; std::string s; };

double val( Src& s ) { return s.chance( 1, 6 ) ? s.real( 1e6 ) : s.grid( -100, 100, 0.25 ); }
std::string word( Src& s, int n ) { static const char* A = "ABCDEFXYZ019_ az-"; std::string r; int l = s.range( 0, n ); for( int i = 0; i < l; ++i ) r += A[s.draw( 17 )]; return r; }

std::string masked( std::string t )
{   // dates of a file: 15HYYYYMMDD.HHMMSS; they may continue on the next line of the global section
    std::string g; std::vector<size_t> pos;
    for( size_t i = 0; i + 80 <= t.size(); ++i ) { size_t e = t.find( '\n', i ); if( e == std::string::npos ) break; if( e - i >= 73 && t[i + 72] == 'G' ) for( size_t j = i; j < i + 72; ++j ) { g += t[j]; pos.push_back( j ); } i = e; }
    for( size_t i = 0; ( i = g.find( "15H", i ) ) != std::string::npos; i += 3 )
    {
        bool d = i + 18 <= g.size(); for( int j = 0; d && j < 15; ++j ) d = j == 8 ? g[i + 3 + j] == '.' : isdigit( (unsigned char)g[i + 3 + j] ) != 0;
        if( d ) for( int j = 0; j < 15; ++j ) if( j != 8 ) t[pos[i + 3 + j]] = '0';
    }
    for( auto w : { "part20", "assy20" } )      // invented names: partYYYYDDDHHMMSSnnnn
        for( size_t i = 0; ( i = t.find( w, i ) ) != std::string::npos; )
        {
            if( t.find_first_not_of( "0123456789", i + 4 ) >= i + 17 ) REQ( currentStamp( t.substr( i + 4, 13 ), "YYYYJJJhhmmss" ), "the invented name '" << t.substr( i, 17 ) << "' does not hold the current time" );
            for( i += 4; i < t.size() && isdigit( (unsigned char)t[i] ); ++i ) t[i] = '0';
        }
    return t;
}
std::string where( const std::string& a, const std::string& b )
{
    size_t i = 0; while( i < a.size() && i < b.size() && a[i] == b[i] ) ++i;
    size_t l = a.rfind( '\n', i ); l = l == std::string::npos ? 0 : l + 1;
    return strf( "at byte %zu: ", i ) + a.substr( l, 80 ) + " / " + ( l < b.size() ? b.substr( l, 80 ) : std::string() );
}
struct Out
{   // what the queries say
    std::vector<std::string> l;
    void add( const char* n, bool ok, const std::string& v ) { l.push_back( std::string( n ) + ( ok ? " 1 " + v : " 0" ) ); }
    void n( const char* k, bool ok, long v ) { add( k, ok, strf( "%ld", v ) ); }
    void d( const char* k, bool ok, std::initializer_list<double> v ) { std::string t; for( double x : v ) t += strf( "%a ", x ); add( k, ok, t ); }
    void p( const char* k, bool ok, const MCAD_POINT& a ) { d( k, ok, { a.x, a.y, a.z } ); }
};
void same( const Out& a, const Out& b, const std::string& what )
{
    REQ( a.l.size() == b.l.size(), what << ": harness error, " << a.l.size() << " and " << b.l.size() << " answers" );
    for( size_t i = 0; i < a.l.size(); ++i ) REQ( a.l[i] == b.l[i], what << ": the handle says '" << a.l[i] << "', the object says '" << b.l[i] << "'" );
}

const int TYPES[] = { 110, 100, 104, 126, 102, 124, 314, 406, 120, 122, 128, 142, 144, 308, 408 };
const int NT = 15;
bool isCurve( int t ) { return t == 100 || t == 102 || t == 104 || t == 110 || t == 126; }

#define EACH( X ) X( 100 ) X( 102 ) X( 104 ) X( 110 ) X( 120 ) X( 122 ) X( 124 ) X( 126 ) X( 128 ) X( 142 ) X( 144 ) X( 308 ) X( 314 ) X( 406 ) X( 408 )
DLL_IGES_ENTITY* mk( int t, IGES* p, bool c )
{
    switch( t ) {
#define X( n ) case n: return new DLL_IGES_ENTITY_##n( p, c );
    EACH( X )
#undef X
    } return NULL;
}
DLL_IGES_ENTITY* mk( int t, DLL_IGES& p, bool c )
{
    switch( t ) {
#define X( n ) case n: return new DLL_IGES_ENTITY_##n( p, c );
    EACH( X )
#undef X
    } return NULL;
}
IGES_ENTITY* mkCore( int t )
{
    switch( t ) {
#define X( n ) case n: return new IGES_ENTITY_##n( NULL );
    EACH( X )
#undef X
    } return NULL;
}

struct Slot
{
    int type = 0; DLL_IGES_ENTITY* h = NULL; IGES_ENTITY* a = NULL; IGES_ENTITY* b = NULL;
    bool la = false, lb = false;            // alive
    bool linked = false, attached = true;
    bool viaCurve() const { return isCurve( type ); }
};

struct World
{
    DLL_IGES* da[2] = { NULL, NULL }; IGES* cb[2] = { NULL, NULL };
    std::deque<Slot> s; std::set<std::string> names; long ops = 0, refused = 0, dead = 0, files = 0, arrays = 0, shows = 0; std::string dir; std::string at;
    ~World() { finish(); }
    void finish()
    {
        for( auto& x : s )
        {   // entities without a model belong to the user
            IGES* p = NULL;
            if( x.la && ( p = x.a->GetParentIGES() ) == NULL ) { if( x.h && x.h->IsValid() ) x.h->DelEntity(); else delete x.a; }
            if( x.lb && x.b->GetParentIGES() == NULL ) delete x.b;
        }
        for( int i = 0; i < 2; ++i ) { delete da[i]; da[i] = NULL; delete cb[i]; cb[i] = NULL; }
        for( auto& x : s ) { delete x.h; x.h = NULL; if( x.la ) x.a->DetachValidFlag( &x.la ); if( x.lb ) x.b->DetachValidFlag( &x.lb ); }
        s.clear();
    }
    IGES* ra( int m ) { return da[m] ? da[m]->GetRawPtr() : NULL; }
    std::string idA( const void* p ) { if( !p ) return "nil"; for( size_t i = 0; i < s.size(); ++i ) if( s[i].la && s[i].a == p ) return strf( "#%zu", i ); return "other"; }
    std::string idB( const void* p ) { if( !p ) return "nil"; for( size_t i = 0; i < s.size(); ++i ) if( s[i].lb && s[i].b == p ) return strf( "#%zu", i ); return "other"; }
    std::string modA( IGES* p ) { return !p ? "nil" : p == ra( 0 ) ? "M0" : p == ra( 1 ) ? "M1" : "other"; }
    std::string modB( IGES* p ) { return !p ? "nil" : p == cb[0] ? "M0" : p == cb[1] ? "M1" : "other"; }

    // ---- queries
    template<class T> std::string ids( T** p, size_t n, bool A ) { std::string t; for( size_t i = 0; i < n; ++i ) t += ( A ? idA( p[i] ) : idB( p[i] ) ) + " "; return t; }
    std::string strs( char const** p, size_t n ) { std::string t; for( size_t i = 0; i < n; ++i ) t += std::string( p[i] ) + "|"; return t; }
    std::string mat( const MCAD_TRANSFORM& t ) { std::string r; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) r += strf( "%a ", t.R.v[i][j] ); return r + strf( "%a %a %a", t.T.x, t.T.y, t.T.z ); }

    Out askA( Slot& x )
    {
        Out o; DLL_IGES_ENTITY* h = x.h; bool r; int i = 0; IGES_ENTITY* e = NULL; size_t z = 0; char const** cl = NULL; IGES_ENTITY** el = NULL; const char* cp = NULL; bool bo = false; IGES* ip = NULL;
        r = h->GetEntityType( i ); o.n( "type", r, i ); r = h->GetEntityForm( i ); o.n( "form", r, i ); r = h->GetParentIGES( ip ); o.add( "model", r, modA( ip ) );
        r = h->GetNOptionalEntities( i ); o.n( "nopt", r, i ); r = h->GetOptionalEntities( z, el ); o.add( "opt", r, r ? ids( el, z, true ) : "" );
        r = h->GetNComments( i ); o.n( "ncom", r, i ); r = h->GetComments( z, cl ); o.add( "com", r, r ? strs( cl, z ) : "" );
        r = h->GetStructure( e ); o.add( "struct", r, r ? idA( e ) : "" );
        IGES_LINEFONT_PATTERN lf = (IGES_LINEFONT_PATTERN)0; r = h->GetLineFontPattern( lf ); o.n( "lfp", r, lf ); r = h->GetLineFontPatternEntity( e ); o.add( "lfpe", r, r ? idA( e ) : "" );
        r = h->GetLevel( i ); o.n( "level", r, i ); r = h->GetLevelEntity( e ); o.add( "levele", r, r ? idA( e ) : "" ); r = h->GetView( e ); o.add( "view", r, r ? idA( e ) : "" );
        r = h->GetTransform( e ); o.add( "xform", r, r ? idA( e ) : "" ); r = h->GetLabelAssoc( e ); o.add( "lassoc", r, r ? idA( e ) : "" );
        IGES_COLOR co = (IGES_COLOR)0; r = h->GetColor( co ); o.n( "color", r, co ); r = h->GetColorEntity( e ); o.add( "colore", r, r ? idA( e ) : "" );
        r = h->GetLineWeightNum( i ); o.n( "lw", r, i ); r = h->GetLabel( cp ); o.add( "label", r, r ? cp : "" ); r = h->GetEntitySubscript( i ); o.n( "sub", r, i );
        r = h->GetVisibility( bo ); o.n( "vis", r, bo ); IGES_STAT_DEPENDS sd = (IGES_STAT_DEPENDS)0; r = h->GetDependency( sd ); o.n( "dep", r, sd );
        IGES_STAT_USE su = (IGES_STAT_USE)0; r = h->GetEntityUse( su ); o.n( "use", r, su ); IGES_STAT_HIER sh = (IGES_STAT_HIER)0; r = h->GetHierarchy( sh ); o.n( "hier", r, sh );
        double a = 0, b = 0, c = 0, d = 0, f = 0, g = 0; MCAD_POINT p, q; IGES_CURVE* cu = NULL;
        if( x.viaCurve() )
        {
            DLL_IGES_CURVE* k = (DLL_IGES_CURVE*)h; bool v = h->IsValid(); o.n( "closed", v, k->IsClosed() ); o.n( "ncurves", v, k->GetNCurves() ); o.n( "nseg", v, k->GetNSegments() );
            o.add( "curve", v, idA( k->GetCurve( 0 ) ) ); if( !v ) REQ( !k->IsClosed() && !k->GetNCurves() && !k->GetNSegments() && !k->GetCurve( 0 ), "an invalid handle answers" );
            for( int xf = 0; xf < 2; ++xf ) { r = k->GetStartPoint( p, xf ); o.p( "start", r, p ); r = k->GetEndPoint( p, xf ); o.p( "end", r, p ); }
        }
        switch( x.type )
        {
        case 100: { auto k = (DLL_IGES_ENTITY_100*)h; r = k->GetCircleCenter( a, b, c ); o.d( "ctr", r, { a, b, c } ); r = k->GetCircleCenter( p ); o.p( "ctr", r, p ); r = k->GetCircleStart( a, b, c ); o.d( "cs", r, { a, b, c } ); r = k->GetCircleStart( p ); o.p( "cs", r, p ); r = k->GetCircleEnd( a, b, c ); o.d( "ce", r, { a, b, c } ); r = k->GetCircleEnd( p ); o.p( "ce", r, p ); } break;
        case 104: { auto k = (DLL_IGES_ENTITY_104*)h; r = k->GetConicStart( a, b, c ); o.d( "cs", r, { a, b, c } ); r = k->GetConicStart( p ); o.p( "cs", r, p ); r = k->GetConicEnd( a, b, c ); o.d( "ce", r, { a, b, c } ); r = k->GetConicEnd( p ); o.p( "ce", r, p ); r = k->GetConicParams( a, b, c, d, f, g ); o.d( "par", r, { a, b, c, d, f, g } ); } break;
        case 110: { auto k = (DLL_IGES_ENTITY_110*)h; r = k->GetLineStart( a, b, c ); o.d( "ls", r, { a, b, c } ); r = k->GetLineStart( p ); o.p( "ls", r, p ); r = k->GetLineEnd( a, b, c ); o.d( "le", r, { a, b, c } ); r = k->GetLineEnd( p ); o.p( "le", r, p ); } break;
        case 120: { auto k = (DLL_IGES_ENTITY_120*)h; r = k->GetAxis( &cu ); o.add( "axis", r, r ? idA( cu ) : "" ); r = k->GetGeneratrix( &cu ); o.add( "gen", r, r ? idA( cu ) : "" ); r = k->GetAngles( a, b ); o.d( "ang", r, { a, b } ); } break;
        case 122: { auto k = (DLL_IGES_ENTITY_122*)h; r = k->GetGeneratrixEnd( a, b, c ); o.d( "ge", r, { a, b, c } ); r = k->GetGeneratrixEnd( p ); o.p( "ge", r, p ); r = k->GetDirectrix( cu ); o.add( "dir", r, r ? idA( cu ) : "" ); } break;
        case 124: { auto k = (DLL_IGES_ENTITY_124*)h; MCAD_TRANSFORM t; r = k->GetRootTransform( t ); o.add( "T", r, mat( t ) ); r = k->GetOverallTransform( t ); o.add( "TT", r, mat( t ) ); } break;
        case 126: { auto k = (DLL_IGES_ENTITY_126*)h; int nc = 0, od = 0; double *kn = NULL, *cf = NULL; bool ra_ = 0, cl_ = 0, pe = 0; r = k->GetNURBSData( nc, od, &kn, &cf, ra_, cl_, pe, a, b ); std::string t; if( r ) { t = strf( "%d %d %d %d %d %a %a", nc, od, ra_, cl_, pe, a, b ); for( int j = 0; j < nc + od; ++j ) t += strf( " %a", kn[j] ); for( int j = 0; j < nc * ( ra_ ? 4 : 3 ); ++j ) t += strf( " %a", cf[j] ); } o.add( "nurbs", r, t );
                    r = k->IsPlanar( bo ); o.n( "planar", r, bo ); r = k->IsRational( bo ); o.n( "rat", r, bo ); r = k->isPeriodic( bo ); o.n( "per", r, bo ); r = k->GetNormal( p ); o.p( "norm", r, p ); } break;
        case 128: { auto k = (DLL_IGES_ENTITY_128*)h; int n1 = 0, n2 = 0, o1 = 0, o2 = 0; double *k1 = NULL, *k2 = NULL, *cf = NULL; bool ra_ = 0, c1 = 0, c2 = 0, p1 = 0, p2 = 0; r = k->GetNURBSData( n1, n2, o1, o2, &k1, &k2, &cf, ra_, c1, c2, p1, p2, a, b, c, d ); std::string t; if( r ) { t = strf( "%d %d %d %d %d %d %d %d %d %a %a %a %a", n1, n2, o1, o2, ra_, c1, c2, p1, p2, a, b, c, d ); for( int j = 0; j < n1 + o1; ++j ) t += strf( " %a", k1[j] ); for( int j = 0; j < n2 + o2; ++j ) t += strf( " %a", k2[j] ); for( int j = 0; j < n1 * n2 * ( ra_ ? 4 : 3 ); ++j ) t += strf( " %a", cf[j] ); } o.add( "nurbs", r, t );
                    r = k->IsRational( bo ); o.n( "rat", r, bo ); r = k->isClosed1( bo ); o.n( "c1", r, bo ); r = k->isClosed2( bo ); o.n( "c2", r, bo ); r = k->isPeriodic1( bo ); o.n( "p1", r, bo ); r = k->isPeriodic2( bo ); o.n( "p2", r, bo ); } break;
        case 142: { auto k = (DLL_IGES_ENTITY_142*)h; r = k->GetSurface( &e ); o.add( "surf", r, r ? idA( e ) : "" ); r = k->GetParameterSpaceBound( &e ); o.add( "B", r, r ? idA( e ) : "" ); r = k->GetModelSpaceBound( &e ); o.add( "C", r, r ? idA( e ) : "" ); BOUND_CURVE_PREF bp = (BOUND_CURVE_PREF)0; r = k->GetCurvePreference( bp ); o.n( "pref", r, bp ); CURVE_CREATION cc = (CURVE_CREATION)0; r = k->GetCurveCreationFlag( cc ); o.n( "crtn", r, cc ); } break;
        case 144: { auto k = (DLL_IGES_ENTITY_144*)h; r = k->GetSurface( e ); o.add( "surf", r, r ? idA( e ) : "" ); IGES_ENTITY_142* b2 = NULL; r = k->GetBoundCurve( b2 ); o.add( "bound", r, r ? idA( b2 ) : "" ); r = k->GetNCutouts( i ); o.n( "ncut", r, i ); IGES_ENTITY_142** cl2 = NULL; r = k->GetCutouts( z, cl2 ); o.add( "cuts", r, r ? ids( cl2, z, true ) : "" ); if( r && z ) ++arrays; } break;
        case 308: { auto k = (DLL_IGES_ENTITY_308*)h; z = 0; r = k->GetNumDE( z ); o.n( "nde", r, (long)z ); z = 0; el = NULL; r = k->GetDEList( z, el ); if( !r ) z = 0; o.add( "des", r || h->IsValid(), ids( el, z, true ) ); if( z ) ++arrays; r = k->GetNestDepth( i ); o.n( "depth", r, i ); r = k->GetName( cp ); o.add( "name", r, r ? cp : "" ); } break;
        case 314: { auto k = (DLL_IGES_ENTITY_314*)h; r = k->GetColor( a, b, c ); o.d( "rgb", r, { a, b, c } ); r = k->GetName( cp ); o.add( "name", r, r ? cp : "" ); } break;
        case 406: { auto k = (DLL_IGES_ENTITY_406*)h; cp = k->GetProperty_Name(); o.add( "name", cp != NULL, cp ? cp : "" ); } break;
        case 408: { auto k = (DLL_IGES_ENTITY_408*)h; IGES_ENTITY_308* y = NULL; r = k->GetSubfigure( y ); o.add( "sub", r, r ? idA( y ) : "" ); r = k->GetDE( y ); o.add( "sub", r, r ? idA( y ) : "" ); r = k->GetSubfigParams( a, b, c, d ); o.d( "par", r, { a, b, c, d } ); } break;
        }
        return o;
    }
    Out askB( Slot& x )
    {
        Out o; IGES_ENTITY* h = x.b; bool r; int i = 0; IGES_ENTITY* e = NULL; size_t z = 0; char const** cl = NULL; IGES_ENTITY** el = NULL; bool bo = false;
        o.n( "type", true, h->GetEntityType() ); o.n( "form", true, h->GetEntityForm() ); o.add( "model", true, modB( h->GetParentIGES() ) );
        o.n( "nopt", true, h->GetNOptionalEntities() ); r = h->GetOptionalEntities( z, el ); std::string t; for( int j = 0; j < h->GetNOptionalEntities(); ++j ) t += idB( h->GetOptionalEntity( j ) ) + " "; o.add( "opt", r, t );
        o.n( "ncom", true, h->GetNComments() ); t = ""; for( int j = 0; j < h->GetNComments(); ++j ) t += std::string( h->GetComment( j ) ) + "|"; r = h->GetComments( z, cl ); o.add( "com", r, t );
        r = h->GetStructure( &e ); o.add( "struct", r, r ? idB( e ) : "" );
        IGES_LINEFONT_PATTERN lf = (IGES_LINEFONT_PATTERN)0; r = h->GetLineFontPattern( lf ); o.n( "lfp", r, lf ); r = h->GetLineFontPatternEntity( &e ); o.add( "lfpe", r, r ? idB( e ) : "" );
        r = h->GetLevel( i ); o.n( "level", r, i ); r = h->GetLevelEntity( &e ); o.add( "levele", r, r ? idB( e ) : "" ); r = h->GetView( &e ); o.add( "view", r, r ? idB( e ) : "" );
        r = h->GetTransform( &e ); o.add( "xform", r, r ? idB( e ) : "" ); r = h->GetLabelAssoc( &e ); o.add( "lassoc", r, r ? idB( e ) : "" );
        IGES_COLOR co = (IGES_COLOR)0; r = h->GetColor( co ); o.n( "color", r, co ); r = h->GetColorEntity( &e ); o.add( "colore", r, r ? idB( e ) : "" );
        r = h->GetLineWeightNum( i ); o.n( "lw", r, i ); std::string lb; h->GetLabel( lb ); o.add( "label", !lb.empty(), lb ); r = h->GetEntitySubscript( i ); o.n( "sub", r, i );
        r = h->GetVisibility( bo ); o.n( "vis", r, bo ); IGES_STAT_DEPENDS sd = (IGES_STAT_DEPENDS)0; r = h->GetDependency( sd ); o.n( "dep", r, sd );
        IGES_STAT_USE su = (IGES_STAT_USE)0; r = h->GetEntityUse( su ); o.n( "use", r, su ); IGES_STAT_HIER sh = (IGES_STAT_HIER)0; r = h->GetHierarchy( sh ); o.n( "hier", r, sh );
        double a = 0, b = 0, c = 0, d = 0; MCAD_POINT p; IGES_CURVE* cu = NULL;
        if( x.viaCurve() )
        {
            IGES_CURVE* k = (IGES_CURVE*)h; o.n( "closed", true, k->IsClosed() ); o.n( "ncurves", true, k->GetNCurves() ); o.n( "nseg", true, k->GetNSegments() ); o.add( "curve", true, idB( k->GetCurve( 0 ) ) );
            for( int xf = 0; xf < 2; ++xf ) { r = k->GetStartPoint( p, xf ); o.p( "start", r, p ); r = k->GetEndPoint( p, xf ); o.p( "end", r, p ); }
        }
        switch( x.type )
        {
        case 100: { auto k = (IGES_ENTITY_100*)h; for( int j = 0; j < 2; ++j ) o.d( "ctr", true, { k->X1, k->Y1, k->ZT } ); for( int j = 0; j < 2; ++j ) o.d( "cs", true, { k->X2, k->Y2, k->ZT } ); for( int j = 0; j < 2; ++j ) o.d( "ce", true, { k->X3, k->Y3, k->ZT } ); } break;
        case 104: { auto k = (IGES_ENTITY_104*)h; for( int j = 0; j < 2; ++j ) o.d( "cs", true, { k->X1, k->Y1, k->ZT } ); for( int j = 0; j < 2; ++j ) o.d( "ce", true, { k->X2, k->Y2, k->ZT } ); o.d( "par", true, { k->A, k->B, k->C, k->D, k->E, k->F } ); } break;
        case 110: { auto k = (IGES_ENTITY_110*)h; for( int j = 0; j < 2; ++j ) o.d( "ls", true, { k->X1, k->Y1, k->Z1 } ); for( int j = 0; j < 2; ++j ) o.d( "le", true, { k->X2, k->Y2, k->Z2 } ); } break;
        case 120: { auto k = (IGES_ENTITY_120*)h; r = k->GetL( &cu ); o.add( "axis", r, r ? idB( cu ) : "" ); r = k->GetC( &cu ); o.add( "gen", r, r ? idB( cu ) : "" ); o.d( "ang", true, { k->startAngle, k->endAngle } ); } break;
        case 122: { auto k = (IGES_ENTITY_122*)h; for( int j = 0; j < 2; ++j ) o.d( "ge", true, { k->LX, k->LY, k->LZ } ); r = k->GetDE( cu ); o.add( "dir", r, r ? idB( cu ) : "" ); } break;
        case 124: { auto k = (IGES_ENTITY_124*)h; o.add( "T", true, mat( k->T ) ); o.add( "TT", true, mat( k->GetTransformMatrix() ) ); } break;
        case 126: { auto k = (IGES_ENTITY_126*)h; int nc = 0, od = 0; double *kn = NULL, *cf = NULL; bool ra_ = 0, cl_ = 0, pe = 0; r = k->GetNURBSData( nc, od, &kn, &cf, ra_, cl_, pe, a, b ); std::string t; if( r ) { t = strf( "%d %d %d %d %d %a %a", nc, od, ra_, cl_, pe, a, b ); for( int j = 0; j < nc + od; ++j ) t += strf( " %a", kn[j] ); for( int j = 0; j < nc * ( ra_ ? 4 : 3 ); ++j ) t += strf( " %a", cf[j] ); } o.add( "nurbs", r, t );
                    o.n( "planar", true, k->IsPlanar() ); o.n( "rat", true, k->IsRational() ); o.n( "per", true, k->isPeriodic() ); r = k->GetNormal( p ); o.p( "norm", r, p ); } break;
        case 128: { auto k = (IGES_ENTITY_128*)h; int n1 = 0, n2 = 0, o1 = 0, o2 = 0; double *k1 = NULL, *k2 = NULL, *cf = NULL; bool ra_ = 0, c1 = 0, c2 = 0, p1 = 0, p2 = 0; r = k->GetNURBSData( n1, n2, o1, o2, &k1, &k2, &cf, ra_, c1, c2, p1, p2, a, b, c, d ); std::string t; if( r ) { t = strf( "%d %d %d %d %d %d %d %d %d %a %a %a %a", n1, n2, o1, o2, ra_, c1, c2, p1, p2, a, b, c, d ); for( int j = 0; j < n1 + o1; ++j ) t += strf( " %a", k1[j] ); for( int j = 0; j < n2 + o2; ++j ) t += strf( " %a", k2[j] ); for( int j = 0; j < n1 * n2 * ( ra_ ? 4 : 3 ); ++j ) t += strf( " %a", cf[j] ); } o.add( "nurbs", r, t );
                    o.n( "rat", true, k->IsRational() ); o.n( "c1", true, k->isClosed1() ); o.n( "c2", true, k->isClosed2() ); o.n( "p1", true, k->isPeriodic1() ); o.n( "p2", true, k->isPeriodic2() ); } break;
        case 142: { auto k = (IGES_ENTITY_142*)h; r = k->GetSPTR( &e ); o.add( "surf", r, r ? idB( e ) : "" ); r = k->GetBPTR( &e ); o.add( "B", r, r ? idB( e ) : "" ); r = k->GetCPTR( &e ); o.add( "C", r, r ? idB( e ) : "" ); o.n( "pref", true, k->PREF ); o.n( "crtn", true, k->CRTN ); } break;
        case 144: { auto k = (IGES_ENTITY_144*)h; r = k->GetPTS( e ); o.add( "surf", r, r ? idB( e ) : "" ); IGES_ENTITY_142* b2 = NULL; r = k->GetPTO( b2 ); o.add( "bound", r, r ? idB( b2 ) : "" ); o.n( "ncut", true, k->GetNPTI() ); std::string t; for( int j = 0; j < k->GetNPTI(); ++j ) t += idB( k->GetPTI( j ) ) + " "; o.add( "cuts", k->GetNPTI() > 0, t ); } break;
        case 308: { auto k = (IGES_ENTITY_308*)h; r = k->GetDEList( z, el ); if( !r ) z = 0; o.n( "nde", true, (long)z ); o.add( "des", true, ids( el, z, false ) ); o.n( "depth", true, k->getDepthLevel() ); o.add( "name", !k->NAME.empty(), k->NAME ); } break;
        case 314: { auto k = (IGES_ENTITY_314*)h; o.d( "rgb", true, { k->red, k->green, k->blue } ); o.add( "name", !k->cname.empty(), k->cname ); } break;
        case 406: { auto k = (IGES_ENTITY_406*)h; const std::string* sp = k->GetEntityForm() == 15 ? (const std::string*)k->GetData() : NULL; o.add( "name", sp != NULL, sp ? *sp : "" ); } break;
        case 408: { auto k = (IGES_ENTITY_408*)h; IGES_ENTITY_308* y = NULL; for( int j = 0; j < 2; ++j ) { r = k->GetDE( y ); o.add( "sub", r, r ? idB( y ) : "" ); } o.d( "par", true, { k->X, k->Y, k->Z, k->S } ); } break;
        }
        return o;
    }
    void lives()
    {
        for( size_t i = 0; i < s.size(); ++i )
        {
            Slot& x = s[i]; REQ( x.la == x.lb, at << ": entity #" << i << " (type " << x.type << ") is " << ( x.la ? "alive" : "gone" ) << " when made through a handle and " << ( x.lb ? "alive" : "gone" ) << " otherwise" );
            if( !x.h ) continue;
            bool v = x.la && x.attached;
            REQ( x.h->IsValid() == v, at << ": the handle of entity #" << i << " (type " << x.type << ") says that it is " << ( v ? "invalid" : "valid" ) );
            REQ( x.h->GetRawPtr() == ( v ? x.a : NULL ), at << ": the handle of entity #" << i << " leads to another object" );
            REQ( x.h->GetEntityType() == x.type, at << ": the handle of entity #" << i << " says that it is of the type " << x.h->GetEntityType() );
        }
    }
    void show( size_t i )
    {
        Slot& x = s[i]; if( !x.h ) return; ++shows;
        Out a = askA( x );
        if( x.la && x.attached ) same( a, askB( x ), at + strf( ", entity #%zu of the type %d", i, x.type ) );
        else { ++dead; for( auto& l : a.l ) REQ( l.size() > 2 && l.substr( l.size() - 2 ) == " 0", at << ": a handle which refers to nothing (type " << x.type << ") says '" << l << "'" ); }
    }
    void eq( const char* what, bool a, bool b ) { REQ( a == b, at << ": " << what << " returned " << a << " through the handle and " << b << " from the object" ); if( !b ) ++refused; }

    Out askModel( int m, bool A )
    {
        Out o; const char* cp = NULL; int i = 0; double d = 0; size_t z = 0; char const** cl = NULL; bool r;
        if( A )
        {
            DLL_IGES& g = *da[m];
            r = g.GetProductID_SendingSystem( cp ); o.add( "idss", r, cp ); r = g.GetNativeSystemID( cp ); o.add( "native", r, cp ); r = g.GetPreprocessorVersion( cp ); o.add( "prep", r, cp ); r = g.GetProductID_ReceivingSystem( cp ); o.add( "idrs", r, cp );
            IGES_UNIT u = UNIT_MM; r = g.GetUnitsFlag( u ); o.n( "unit", r, u ); r = g.GetUnitsName( cp ); o.add( "unitname", r, cp ); r = g.GetMaxLineWidthGrad( i ); o.n( "grad", r, i ); r = g.GetMaxLineWidth( d ); o.d( "lw", r, { d } ); r = g.GetMinResolution( d ); o.d( "res", r, { d } );
            r = g.GetAuthor( cp ); o.add( "author", r, cp ); r = g.GetOrganization( cp ); o.add( "org", r, cp ); r = g.GetIGESVersionFlag( i ); o.n( "ver", r, i ); IGES_DRAFTING_STANDARD ds = DRAFT_NONE; r = g.GetDraftingStandard( ds ); o.n( "draft", r, ds );
            r = g.GetApplicationNote( cp ); o.add( "note", r, cp ); o.n( "nhead", true, (long)g.GetNHeaderLines() ); r = g.GetHeaders( z, cl ); o.add( "head", r, r ? strs( cl, z ) : "" ); if( r && z ) ++arrays;
            r = g.GetCreationDate( cp ); o.n( "cdate", r, (long)strlen( cp ) ); r = g.GetModificationDate( cp ); o.n( "mdate", r, (long)strlen( cp ) );
        }
        else
        {
            IGES& g = *cb[m]; auto& q = g.globalData;
            o.add( "idss", true, q.productIDSS ); o.add( "native", true, q.nativeSystemID ); o.add( "prep", true, q.preprocessorVersion ); o.add( "idrs", true, q.productIDRS.empty() ? q.productIDSS : q.productIDRS );
            o.n( "unit", true, q.unitsFlag ); o.add( "unitname", true, g.GetUnitName() ); o.n( "grad", true, q.maxLinewidthGrad ); o.d( "lw", true, { q.maxLinewidth } ); o.d( "res", true, { q.minResolution } );
            o.add( "author", true, q.author ); o.add( "org", true, q.organization ); o.n( "ver", true, q.igesVersion ); o.n( "draft", true, q.draftStandard );
            o.add( "note", true, q.applicationNote ); o.n( "nhead", true, (long)g.GetNHeaderLines() ); r = g.GetHeaders( z, cl ); o.add( "head", r, r ? strs( cl, z ) : "" );
            o.n( "cdate", true, (long)q.creationDate.size() ); o.n( "mdate", true, (long)q.modificationDate.size() );
        }
        return o;
    }
    void showModel( int m ) { same( askModel( m, true ), askModel( m, false ), at + strf( ", model %d", m ) ); }

    // ---- operations
    int pickType( unsigned u ) { return TYPES[u % NT]; }
    Slot* live( unsigned u, std::function<bool( Slot& )> f ) { std::vector<Slot*> v; for( auto& x : s ) if( x.la && x.lb && x.h && x.attached && f( x ) ) v.push_back( &x ); return v.empty() ? NULL : v[u % v.size()]; }
    size_t idx( Slot* x ) { for( size_t i = 0; i < s.size(); ++i ) if( &s[i] == x ) return i; return s.size(); }
    void create( const Op& o )
    {
        int t = pickType( o.a ), m = o.c & 1; s.emplace_back(); Slot& x = s.back(); x.type = t; int way = o.v % 8; if( t == 406 && ( way == 5 || way == 7 ) ) way = 0;
        at += strf( " type %d way %d", t, way );
        switch( way )
        {
        case 0: x.h = mk( t, ra( m ), true ); break;
        case 1: x.h = mk( t, *da[m], true ); break;
        case 2: x.h = mk( t, (IGES*)NULL, false ); REQ( !x.h->IsValid() && !x.h->GetRawPtr(), at << ": a handle without an entity is valid" );
                if( o.b & 1 ) x.h->SetAPIParentIGES( *da[m] ); else x.h->SetAPIParentIGES( ra( m ) );
                REQ( x.h->NewEntity(), at << ": NewEntity() failed" ); break;
        case 3: x.h = mk( t, (IGES*)NULL, true ); REQ( x.h->IsValid(), at << ": no entity was made" ); if( o.b & 1 ) { REQ( da[m]->AddEntity( x.h ), at << ": AddEntity() failed" ); } else if( o.b & 2 ) { REQ( da[m]->AddEntity( x.h->GetRawPtr() ), at << ": AddEntity() failed" ); } else { REQ( o.b & 4 ? x.h->SetParentIGES( *da[m] ) : x.h->SetParentIGES( ra( m ) ), at << ": SetParentIGES() failed" ); REQ( da[m]->AddEntity( x.h ), at << ": AddEntity() failed" ); } break;
        case 4: { IGES_ENTITY* e = NULL; bool r = da[m]->NewIGESEntity( (IGES_ENTITY_TYPE)t, &e ); REQ( r && e, at << ": NewIGESEntity() made no entity" ); if( o.b & 1 ) x.h = mk( t, ra( m ), false ); else x.h = mk( t, *da[m], false );
                  if( o.b & 2 ) { std::unique_ptr<DLL_IGES_ENTITY> w( mk( t == 110 ? 100 : 110, ra( m ), false ) ); REQ( !w->Attach( e ) && !w->IsValid(), at << ": a handle for another type was attached" ); }
                  REQ( x.h->Attach( e ), at << ": Attach() failed" ); } break;
        case 5: { DLL_IGES_ENTITY* h = NULL; REQ( da[m]->NewAPIEntity( (IGES_ENTITY_TYPE)t, h ) && h, at << ": NewAPIEntity() made no entity" ); x.h = h; } break;
        case 6: x.h = mk( t, (IGES*)NULL, true ); break;
        case 7: { Slot* y = live( o.b, []( Slot& ) { return true; } ); if( y && y->a->GetParentIGES() ) { DLL_IGES_ENTITY* h = y->h; y->h = NULL; REQ( da[m]->NewAPIEntity( (IGES_ENTITY_TYPE)t, h ) && h, at << ": NewAPIEntity() made no entity" ); x.h = h; } else x.h = mk( t, *da[m], true ); } break;
        }
        REQ( x.h->IsValid(), at << ": the new handle is invalid" ); x.a = x.h->GetRawPtr(); REQ( x.a, at << ": the new handle is empty" ); x.a->AttachValidFlag( &x.la );
        if( way == 6 || way == 3 ) { x.b = mkCore( t ); if( way == 3 ) { cb[m]->AddEntity( x.b ); } } else REQ( cb[m]->NewEntity( t, &x.b ), "harness: NewEntity" );
        x.b->AttachValidFlag( &x.lb );
        REQ( modA( x.a->GetParentIGES() ) == modB( x.b->GetParentIGES() ), at << ": the new entity belongs to " << modA( x.a->GetParentIGES() ) );
    }
    void params( Slot& x, const Op& o )
    {
        const double* q = o.x; MCAD_POINT p( q[0], q[1], q[2] ), p2( q[3], q[4], q[5] ); bool alt = o.b & 1; bool r = true;
        switch( x.type )
        {
        case 100: { auto k = (DLL_IGES_ENTITY_100*)x.h; auto c = (IGES_ENTITY_100*)x.b; int w = o.c % 4;
                    double R = fabs( q[3] ) + 0.5; MCAD_POINT st( q[0] + R, q[1], 0 ), en( q[0], q[1] + R, 0 ); if( o.c & 8 ) en = st;
                    if( w == 0 || w == 3 ) { r = alt ? k->SetCircleCenter( q[0], q[1], q[2] ) : k->SetCircleCenter( p ); c->X1 = q[0]; c->Y1 = q[1]; c->ZT = q[2]; }
                    if( w == 1 || w == 3 ) { r = r && ( alt ? k->SetCircleStart( st.x, st.y ) : k->SetCircleStart( st ) ); c->X2 = st.x; c->Y2 = st.y; }
                    if( w == 2 || w == 3 ) { r = r && ( alt ? k->SetCircleEnd( en.x, en.y ) : k->SetCircleEnd( en ) ); c->X3 = en.x; c->Y3 = en.y; } } break;
        case 104: { auto k = (DLL_IGES_ENTITY_104*)x.h; auto c = (IGES_ENTITY_104*)x.b; // x*x/a2 + y*y/b2 = 1 from (a,0) to (0,b)
                    double A = fabs( q[0] ) + 1, B = fabs( q[1] ) + 1; r = alt ? k->SetConicStart( A, 0, q[2] ) : k->SetConicStart( MCAD_POINT( A, 0, q[2] ) ); c->X1 = A; c->Y1 = 0; c->ZT = q[2];
                    r = r && ( o.b & 2 ? k->SetConicEnd( 0, B ) : k->SetConicEnd( MCAD_POINT( 0, B, q[2] ) ) ); c->X2 = 0; c->Y2 = B;
                    r = r && k->SetConicParams( B * B, 0, A * A, 0, 0, -A * A * B * B ); c->A = B * B; c->B = 0; c->C = A * A; c->D = c->E = 0; c->F = -A * A * B * B; if( o.c & 8 ) { r = r && k->SetConicParams( q[0], q[1], q[2], q[3], q[4], q[5] ); c->A = q[0]; c->B = q[1]; c->C = q[2]; c->D = q[3]; c->E = q[4]; c->F = q[5]; } } break;
        case 110: { auto k = (DLL_IGES_ENTITY_110*)x.h; auto c = (IGES_ENTITY_110*)x.b; r = alt ? k->SetLineStart( q[0], q[1], q[2] ) : k->SetLineStart( p ); c->X1 = q[0]; c->Y1 = q[1]; c->Z1 = q[2]; if( o.c & 3 ) { r = r && ( o.b & 2 ? k->SetLineEnd( q[3], q[4], q[5] ) : k->SetLineEnd( p2 ) ); c->X2 = q[3]; c->Y2 = q[4]; c->Z2 = q[5]; } } break;
        case 120: { double a = fmod( fabs( q[0] ), 6 ) + 0.01, b = o.c & 1 ? a : 0; b = std::max( 0.0, a - 0.5 - b ); r = ( (DLL_IGES_ENTITY_120*)x.h )->SetAngles( b, a ); ( (IGES_ENTITY_120*)x.b )->startAngle = b; ( (IGES_ENTITY_120*)x.b )->endAngle = a; } break;
        case 122: { auto k = (DLL_IGES_ENTITY_122*)x.h; auto c = (IGES_ENTITY_122*)x.b; r = alt ? k->SetGeneratrixEnd( q[0], q[1], q[2] ) : k->SetGeneratrixEnd( p ); c->LX = q[0]; c->LY = q[1]; c->LZ = q[2]; } break;
        case 124: { MCAD_TRANSFORM t; double cs = cos( q[0] ), sn = sin( q[0] ); t.R.v[0][0] = cs; t.R.v[0][1] = -sn; t.R.v[1][0] = sn; t.R.v[1][1] = cs; t.T = MCAD_POINT( q[1], q[2], q[3] ); auto k = (DLL_IGES_ENTITY_124*)x.h; r = alt ? k->SetRootTransform( t ) : k->SetRootTransform( &t ); ( (IGES_ENTITY_124*)x.b )->T = t; if( o.c & 8 ) eq( "SetRootTransform(NULL)", k->SetRootTransform( (MCAD_TRANSFORM*)NULL ), false ); } break;
        case 126: { int ord = 2 + o.a % 3, n = ord + o.b % 3; bool rat = o.c & 1; std::vector<double> kn, cf; for( int i = 0; i < n + ord; ++i ) kn.push_back( i < ord ? 0 : i >= n ? n - ord + 1 : i - ord + 1 );
                    for( int i = 0; i < n; ++i ) { cf.push_back( q[0] + i * ( 1 + fabs( q[3] ) ) ); cf.push_back( q[1] + ( i % 2 ) * q[4] ); cf.push_back( q[2] + ( o.c & 2 ? i * i : 0 ) ); if( rat ) cf.push_back( 1 + 0.25 * ( i % 3 ) ); }
                    double e = n - ord + 1; eq( "SetNURBSData", ( (DLL_IGES_ENTITY_126*)x.h )->SetNURBSData( n, ord, &kn[0], &cf[0], rat, 0, e ), ( (IGES_ENTITY_126*)x.b )->SetNURBSData( n, ord, &kn[0], &cf[0], rat, 0, e ) ); } break;
        case 128: { int o1 = 2 + o.a % 2, o2 = 2 + o.b % 2, n1 = o1 + o.c % 2, n2 = o2 + ( o.c / 2 ) % 2; bool rat = o.c & 16; std::vector<double> k1, k2, cf; for( int i = 0; i < n1 + o1; ++i ) k1.push_back( i < o1 ? 0 : i >= n1 ? n1 - o1 + 1 : i - o1 + 1 ); for( int i = 0; i < n2 + o2; ++i ) k2.push_back( i < o2 ? 0 : i >= n2 ? n2 - o2 + 1 : i - o2 + 1 );
                    for( int j = 0; j < n2; ++j ) for( int i = 0; i < n1; ++i ) { cf.push_back( q[0] + i * 2 ); cf.push_back( q[1] + j * 3 ); cf.push_back( q[2] + ( ( i + j ) % 2 ) * q[3] ); if( rat ) cf.push_back( 1 + 0.5 * ( ( i * 7 + j ) % 3 ) ); }
                    double e1 = n1 - o1 + 1, e2 = n2 - o2 + 1; bool p1 = o.c & 4, p22 = o.c & 8;
                    eq( "SetNURBSData", ( (DLL_IGES_ENTITY_128*)x.h )->SetNURBSData( n1, n2, o1, o2, &k1[0], &k2[0], &cf[0], rat, p1, p22, 0, e1, 0, e2 ), ( (IGES_ENTITY_128*)x.b )->SetNURBSData( n1, n2, o1, o2, &k1[0], &k2[0], &cf[0], rat, p1, p22, 0, e1, 0, e2 ) ); } break;
        case 142: { auto k = (DLL_IGES_ENTITY_142*)x.h; auto c = (IGES_ENTITY_142*)x.b; r = k->SetCurvePreference( (BOUND_CURVE_PREF)( o.a % 4 ) ) && k->SetCurveCreationFlag( (CURVE_CREATION)( o.b % 4 ) ); c->PREF = o.a % 4; c->CRTN = o.b % 4; } break;
        case 308: { r = ( (DLL_IGES_ENTITY_308*)x.h )->SetName( o.b % 5 ? o.s.c_str() : NULL ); ( (IGES_ENTITY_308*)x.b )->NAME = o.b % 5 ? o.s : ""; } break;
        case 314: { auto k = (DLL_IGES_ENTITY_314*)x.h; auto c = (IGES_ENTITY_314*)x.b; if( o.c & 1 ) { r = k->SetName( o.b % 5 ? o.s.c_str() : NULL ); c->cname = o.b % 5 ? o.s : ""; } double a = q[0], b = q[1], d = q[2]; if( o.c & 6 ) { a = fmod( fabs( a ), 100 ); b = fmod( fabs( b ), 100 ); d = fmod( fabs( d ), 100 ); }
                    bool ok = a >= 0 && a <= 100 && b >= 0 && b <= 100 && d >= 0 && d <= 100; eq( "SetColor(r,g,b)", k->SetColor( a, b, d ), ok ); if( ok ) { c->red = a; c->green = b; c->blue = d; } } break;
        case 406: { if( o.b % 7 == 0 ) eq( "SetProperty_Name(NULL)", ( (DLL_IGES_ENTITY_406*)x.h )->SetProperty_Name( NULL ), false ); else { r = ( (DLL_IGES_ENTITY_406*)x.h )->SetProperty_Name( o.s.c_str() ); ( (IGES_ENTITY_406*)x.b )->SetData( o.s.c_str() ); } } break;
        case 408: { r = ( (DLL_IGES_ENTITY_408*)x.h )->SetSubfigParams( q[0], q[1], q[2], fabs( q[3] ) + 0.5 ); auto c = (IGES_ENTITY_408*)x.b; c->X = q[0]; c->Y = q[1]; c->Z = q[2]; c->S = fabs( q[3] ) + 0.5; if( o.c % 4 == 0 ) { r = r && ( (DLL_IGES_ENTITY_408*)x.h )->SetSubfigParams( q[0], q[1], q[2] ); c->S = 1; } } break;
        }
        REQ( r, at << ": the parameters of an entity of the type " << x.type << " were refused" );
    }
    void link( const Op& o )
    {
        Slot* px = live( o.a, []( Slot& z ) { return z.type == 102 || z.type == 120 || z.type == 122 || z.type == 142 || z.type == 144 || z.type == 308 || z.type == 408; } ); if( !px ) return; Slot& x = *px;
        size_t me = idx( px ); int w = o.v % 4; IGES* M = x.a->GetParentIGES();
        Slot* py = live( o.b, [&]( Slot& z ) {
            if( idx( &z ) >= me || z.a->GetParentIGES() != M ) return false;
            if( o.c % 16 == 15 && x.type != 408 && x.type != 144 ) return x.type == 142 || x.type == 308 || isCurve( z.type );
            switch( x.type ) { case 102: return isCurve( z.type ) && z.type != 102; case 120: return w & 1 ? z.type == 110 : isCurve( z.type ); case 122: return isCurve( z.type ); case 142: return w == 0 ? z.type == 128 || z.type == 120 || z.type == 122 : isCurve( z.type );
            case 144: return w == 0 ? z.type == 128 || z.type == 120 || z.type == 122 : z.type == 142; case 308: return z.type != 124 && z.type != 314 && z.type != 406 && z.type != 308; case 408: return z.type == 308; } return false; } );
        if( !py ) return; Slot& y = *py; bool H = o.c & 32; at += strf( " %d <- %d", x.type, y.type ); x.linked = y.linked = true;
        switch( x.type )
        {
        case 102: { auto k = (DLL_IGES_ENTITY_102*)x.h; eq( "AddSegment", H ? k->AddSegment( *(DLL_IGES_CURVE*)y.h ) : k->AddSegment( (IGES_CURVE*)y.a ), ( (IGES_ENTITY_102*)x.b )->AddSegment( (IGES_CURVE*)y.b ) ); } break;
        case 120: { auto k = (DLL_IGES_ENTITY_120*)x.h; auto c = (IGES_ENTITY_120*)x.b; if( w & 1 ) eq( "SetAxis", H ? k->SetAxis( *(DLL_IGES_CURVE*)y.h ) : k->SetAxis( (IGES_CURVE*)y.a ), c->SetAxis( (IGES_CURVE*)y.b ) ); else eq( "SetGeneratrix", H ? k->SetGeneratrix( *(DLL_IGES_CURVE*)y.h ) : k->SetGeneratrix( (IGES_CURVE*)y.a ), c->SetGeneratrix( (IGES_CURVE*)y.b ) ); } break;
        case 122: eq( "SetDirectrix", ( (DLL_IGES_ENTITY_122*)x.h )->SetDirectrix( (IGES_CURVE*)y.a ), ( (IGES_ENTITY_122*)x.b )->SetDE( (IGES_CURVE*)y.b ) ); break;
        case 142: { auto k = (DLL_IGES_ENTITY_142*)x.h; auto c = (IGES_ENTITY_142*)x.b; if( w == 0 ) eq( "SetSurface", H ? k->SetSurface( *y.h ) : k->SetSurface( y.a ), c->SetSPTR( y.b ) ); else if( w == 1 ) eq( "SetParameterSpaceBound", H ? k->SetParameterSpaceBound( *y.h ) : k->SetParameterSpaceBound( y.a ), c->SetBPTR( y.b ) ); else eq( "SetModelSpaceBound", H ? k->SetModelSpaceBound( *y.h ) : k->SetModelSpaceBound( y.a ), c->SetCPTR( y.b ) ); } break;
        case 144: { auto k = (DLL_IGES_ENTITY_144*)x.h; auto c = (IGES_ENTITY_144*)x.b; if( w == 0 ) eq( "SetSurface", H ? k->SetSurface( *y.h ) : k->SetSurface( y.a ), c->SetPTS( y.b ) ); else if( w == 1 ) eq( "SetBoundCurve", H ? k->SetBoundCurve( *(DLL_IGES_ENTITY_142*)y.h ) : k->SetBoundCurve( (IGES_ENTITY_142*)y.a ), c->SetPTO( (IGES_ENTITY_142*)y.b ) );
                    else eq( "AddCutout", H ? k->AddCutout( *(DLL_IGES_ENTITY_142*)y.h ) : k->AddCutout( (IGES_ENTITY_142*)y.a ), c->AddPTI( (IGES_ENTITY_142*)y.b ) ); } break;
        case 308: { auto k = (DLL_IGES_ENTITY_308*)x.h; eq( "AddDE", H ? k->AddDE( y.h ) : k->AddDE( y.a ), ( (IGES_ENTITY_308*)x.b )->AddDE( y.b ) ); } break;
        case 408: { auto k = (DLL_IGES_ENTITY_408*)x.h; eq( "SetDE", H ? k->SetDE( (IGES_ENTITY_308*)y.a ) : k->SetSubfigure( (IGES_ENTITY_308*)y.a ), ( (IGES_ENTITY_408*)x.b )->SetDE( (IGES_ENTITY_308*)y.b ) ); } break;
        }
    }
    void unlink( const Op& o )
    {   // replacing members is what makes arrays stale
        Slot* px = live( o.a, []( Slot& z ) { return z.type == 144 || z.type == 308; } ); if( !px ) return; Slot& x = *px; IGES* M = x.a->GetParentIGES(); size_t me = idx( px );
        if( x.type == 144 )
        {
            auto c = (IGES_ENTITY_144*)x.b; if( !c->GetNPTI() ) return; IGES_ENTITY_142* q = c->GetPTI( o.b % c->GetNPTI() ); Slot* y = NULL; for( auto& z : s ) if( z.lb && z.b == q && z.h && z.attached ) y = &z; if( !y ) return;
            auto k = (DLL_IGES_ENTITY_144*)x.h; eq( "DelCutout", o.c & 1 ? k->DelCutout( *(DLL_IGES_ENTITY_142*)y->h ) : k->DelCutout( (IGES_ENTITY_142*)y->a ), c->DelPTI( q ) );
            if( o.c & 2 ) { Slot* n = live( o.b + 1, [&]( Slot& z ) { return z.type == 142 && idx( &z ) < me && z.a->GetParentIGES() == M; } ); if( n ) { n->linked = true; eq( "AddCutout", k->AddCutout( (IGES_ENTITY_142*)n->a ), c->AddPTI( (IGES_ENTITY_142*)n->b ) ); } }
        }
        else
        {
            auto c = (IGES_ENTITY_308*)x.b; size_t n = 0; IGES_ENTITY** l = NULL; if( !c->GetDEList( n, l ) || !n ) return; IGES_ENTITY* q = l[o.b % n]; Slot* y = NULL; for( auto& z : s ) if( z.lb && z.b == q && z.h && z.attached ) y = &z; if( !y ) return;
            auto k = (DLL_IGES_ENTITY_308*)x.h; eq( "DelDE", o.c & 1 ? k->DelDE( y->h ) : k->DelDE( y->a ), c->DelDE( q ) );
            if( o.c & 2 ) { Slot* t = live( o.b + 1, [&]( Slot& z ) { return isCurve( z.type ) && idx( &z ) < me && z.a->GetParentIGES() == M; } ); if( t ) { t->linked = true; eq( "AddDE", k->AddDE( t->a ), c->AddDE( t->b ) ); } }
        }
    }
    void common( Slot& x, const Op& o )
    {
        DLL_IGES_ENTITY& h = *x.h; IGES_ENTITY& c = *x.b; int n = (int)o.b; size_t me = idx( &x ); IGES* M = x.a->GetParentIGES();
        auto other = [&]( int type ) { return live( o.c, [&]( Slot& z ) { return idx( &z ) < me && z.a->GetParentIGES() == M && ( !type || z.type == type ); } ); };
        Slot* y; int w = o.v % 20; at += strf( " attribute %d of type %d", w, x.type );
        switch( w )
        {
        case 0: { const char* t = o.s.c_str(); eq( "SetLabel", h.SetLabel( n % 7 ? t : NULL ), c.SetLabel( n % 7 ? o.s : "" ) ); } break;
        case 1: eq( "SetEntitySubscript", h.SetEntitySubscript( n % 2000 ), c.SetEntitySubscript( n % 2000 ) ); break;
        case 2: eq( "SetLevel", h.SetLevel( n % 50 - 2 ), c.SetLevel( n % 50 - 2 ) ); break;
        case 3: eq( "SetLineFontPattern", h.SetLineFontPattern( (IGES_LINEFONT_PATTERN)( n % 6 ) ), c.SetLineFontPattern( (IGES_LINEFONT_PATTERN)( n % 6 ) ) ); break;
        case 4: eq( "SetColor", h.SetColor( (IGES_COLOR)( n % 9 ) ), c.SetColor( (IGES_COLOR)( n % 9 ) ) ); break;
        case 5: y = other( 314 ); if( y ) { x.linked = y->linked = true; eq( "SetColor(entity)", n & 1 ? h.SetColor( *(DLL_IGES_ENTITY_314*)y->h ) : h.SetColor( y->a ), c.SetColor( y->b ) ); } break;
        case 6: y = other( 124 ); if( y ) { x.linked = y->linked = true; eq( "SetTransform", n & 1 ? h.SetTransform( *y->h ) : h.SetTransform( y->a ), c.SetTransform( y->b ) ); } break;
        case 7: eq( "SetTransform(NULL)", h.SetTransform( (IGES_ENTITY*)NULL ), c.SetTransform( NULL ) ); break;
        case 8: eq( "SetLineWeightNum", h.SetLineWeightNum( n % 5 ), c.SetLineWeightNum( n % 5 ) ); break;
        case 9: eq( "SetVisibility", h.SetVisibility( n & 1 ), c.SetVisibility( n & 1 ) ); break;
        case 10: eq( "SetDependency", h.SetDependency( (IGES_STAT_DEPENDS)( n % 4 ) ), c.SetDependency( (IGES_STAT_DEPENDS)( n % 4 ) ) ); break;
        case 11: eq( "SetEntityUse", h.SetEntityUse( (IGES_STAT_USE)( n % 7 ) ), c.SetEntityUse( (IGES_STAT_USE)( n % 7 ) ) ); break;
        case 12: eq( "SetHierarchy", h.SetHierarchy( (IGES_STAT_HIER)( n % 2 ) ), c.SetHierarchy( (IGES_STAT_HIER)( n % 2 ) ) ); break;
        case 13: { const char* t = o.s.c_str(); eq( "AddComment", h.AddComment( t ), c.AddComment( o.s ) ); } break;
        case 14: eq( "DelComment", h.DelComment( n % 3 ), c.DelComment( n % 3 ) ); if( n & 8 ) { const char* t = o.s.c_str(); eq( "AddComment", h.AddComment( t ), c.AddComment( o.s ) ); } break;
        case 15: if( n % 3 == 0 ) eq( "ClearComments", h.ClearComments(), c.ClearComments() ); break;
        case 16: y = other( n % 5 ? 406 : 0 ); if( y && y->type != 402 ) { x.linked = y->linked = true; eq( "AddOptionalEntity", n & 1 ? h.AddOptionalEntity( *y->h ) : h.AddOptionalEntity( y->a ), c.AddOptionalEntity( y->b ) ); } break;
        case 17: y = other( 406 ); if( y ) eq( "DelOptionalEntity", n & 1 ? h.DelOptionalEntity( *y->h ) : h.DelOptionalEntity( y->a ), c.DelOptionalEntity( y->b ) ); break;
        case 18: if( x.type != 124 && x.type != 406 ) eq( "SetEntityForm", h.SetEntityForm( n % 6 ), c.SetEntityForm( n % 6 ) ); break;
        case 19: { int j = n % 6; y = other( 0 ); IGES_ENTITY* a = y && ( o.c & 64 ) ? y->a : NULL; IGES_ENTITY* b = a ? y->b : NULL; bool H = a && ( o.c & 128 ); if( a ) x.linked = y->linked = true;
            if( j == 0 ) eq( "SetView", H ? h.SetView( *y->h ) : h.SetView( a ), c.SetView( b ) ); else if( j == 1 ) eq( "SetLabelAssoc", H ? h.SetLabelAssoc( *y->h ) : h.SetLabelAssoc( a ), c.SetLabelAssoc( b ) );
            else if( j == 2 ) eq( "SetLevel", H ? h.SetLevel( *y->h ) : h.SetLevel( a ), c.SetLevel( b ) ); else if( j == 3 ) eq( "SetStructure", H ? h.SetStructure( *y->h ) : h.SetStructure( a ), c.SetStructure( b ) );
            else if( j == 4 ) eq( "SetLineFontPattern", H ? h.SetLineFontPattern( *y->h ) : h.SetLineFontPattern( a ), c.SetLineFontPattern( b ) ); else if( a ) eq( "SetColor", h.SetColor( a ), c.SetColor( b ) ); } break;
        }
    }
    void global( const Op& o )
    {
        int m = o.c & 1; DLL_IGES& g = *da[m]; IGES& c = *cb[m]; auto& q = c.globalData; const char* t = o.b % 7 ? o.s.c_str() : NULL; std::string u = t ? o.s : ""; bool r = true; double d = fabs( o.x[0] ) + 0.01; int w = o.v % 13; at += strf( " global %d", w );
        switch( w )
        {
        case 0: r = g.SetProductID_SendingSystem( t ); q.productIDSS = u; break;
        case 1: r = g.SetNativeSystemID( t ); q.nativeSystemID = u; break;
        case 2: r = g.SetProductID_ReceivingSystem( t ); q.productIDRS = u; break;
        case 3: r = g.SetAuthor( t ); q.author = u; break;
        case 4: r = g.SetOrganization( t ); q.organization = u; break;
        case 5: r = g.SetApplicationNote( t ); q.applicationNote = u; break;
        case 6: { int k = (int)( o.b % 8 ) - 1; eq( "SetMaxLineWidthGrad", g.SetMaxLineWidthGrad( k ), k > 0 ); if( k > 0 ) q.maxLinewidthGrad = k; } break;
        case 7: if( o.b % 5 == 0 ) d = -d; if( o.b % 11 == 0 ) d = 0; eq( "SetMaxLineWidth", g.SetMaxLineWidth( d ), d > 0 ); if( d > 0 ) q.maxLinewidth = d; break;
        case 8: { double e = pow( 10, -(double)( o.b % 12 ) ); if( o.b % 12 == 9 ) return; eq( "SetMinResolution", g.SetMinResolution( e ), e >= 1e-9 ); if( e >= 1e-9 ) q.minResolution = e; } break;
        case 9: { int k = o.b % 8; r = g.SetDraftingStandard( (IGES_DRAFTING_STANDARD)k ); q.draftStandard = (IGES_DRAFTING_STANDARD)k; } break;
        case 10: { IGES_UNIT n = (IGES_UNIT)( 1 + o.b % 11 ); if( n == UNIT_EXTERN ) eq( "SetUnitsFlag", g.SetUnitsFlag( n ), false ); else eq( "SetUnitsFlag", o.a & 1 ? g.SetUnitsFlag( n ) : g.ConvertUnits( n ), c.ConvertUnits( n ) ); } break;
        case 11: if( t && *t ) { const char* v = t; eq( "AddToHeader", g.AddToHeader( t ), c.AddToHeader( v ) ); } break;
        case 12: { double sc = o.b % 9 == 0 ? 0 : o.b % 9 == 1 ? -2 : 0.25 * ( 1 + o.b % 9 ); eq( "ChangeModelScale", g.ChangeModelScale( sc ), c.ChangeModelScale( sc ) ); } break;
        }
        REQ( r, at << ": refused" );
    }
    bool save( int m, bool over, bool doCompare )
    {
        mkdir( ( dir + "/a" ).c_str(), 0755 ); mkdir( ( dir + "/b" ).c_str(), 0755 ); std::string f = strf( "/m%d.igs", m );
        bool a = da[m]->Write( ( dir + "/a" + f ).c_str(), over ), b = cb[m]->Write( ( dir + "/b" + f ).c_str(), over ); eq( "Write", a, b );
        if( a && doCompare ) { std::string x = masked( readFile( dir + "/a" + f ) ), y = masked( readFile( dir + "/b" + f ) ); ++files; REQ( x == y, at << ": the files differ " << where( x, y ) ); }
        return a;
    }
    bool hasMembers( int m ) { for( auto& x : s ) if( x.la && x.a->GetParentIGES() == ra( m ) ) return true; return false; }
    void step( const Op& o )
    {
        int m = o.c & 1; ++ops;
        switch( o.k )
        {
        case 0: at = "create"; create( o ); break;
        case 1: { at = "set parameters"; Slot* x = live( o.a, []( Slot& ) { return true; } ); if( x ) params( *x, o ); } break;
        case 2: at = "link"; link( o ); break;
        case 3: { at = "set"; Slot* x = live( o.a, []( Slot& ) { return true; } ); if( x ) common( *x, o ); } break;
        case 4: at = "global"; global( o ); break;
        case 5: { at = "query"; if( !s.empty() ) show( o.a % s.size() ); showModel( m ); } break;
        case 6: { at = "delete"; Slot* x = live( o.a, []( Slot& ) { return true; } ); if( !x ) break; IGES* pa = x->a->GetParentIGES(); IGES* pb = x->b->GetParentIGES(); int w = o.v % 4; at += strf( " way %d type %d", w, x->type );
                  if( w == 0 || !pa ) { x->h->DelEntity(); if( pb ) pb->DelEntity( x->b ); else delete x->b; } else { int mm = pa == ra( 0 ) ? 0 : 1; if( w == 1 ) eq( "DelEntity", da[mm]->DelEntity( x->h ), pb->DelEntity( x->b ) ); else if( w == 2 ) eq( "DelEntity", da[mm]->DelEntity( x->a ), pb->DelEntity( x->b ) ); else { x->h->DelEntity(); pb->DelEntity( x->b ); } } } break;
        case 7: { at = "handles"; if( s.empty() ) break; Slot& x = s[o.a % s.size()]; if( !x.h ) break; int w = o.v % 3; at += strf( " way %d type %d", w, x.type ); x.linked = true;
                  if( w == 0 ) { IGES_ENTITY* e = x.h->Detach(); REQ( e == ( x.la && x.attached ? x.a : NULL ), at << ": Detach() returned another object" ); if( x.la ) { x.attached = false; lives(); if( o.b & 1 ) show( idx( &x ) ); REQ( x.h->Attach( x.a ), at << ": Attach() failed" ); x.attached = true; } else REQ( !x.h->Attach( NULL ), at << ": Attach(NULL) succeeded" ); }
                  else if( w == 1 ) { delete x.h; x.h = NULL; lives(); x.h = mk( x.type, (IGES*)NULL, false ); if( x.la ) { REQ( x.h->Attach( x.a ), at << ": Attach() failed" ); x.attached = true; } }
                  else if( x.la ) { std::unique_ptr<DLL_IGES_ENTITY> h( mk( x.type, *da[m], false ) ); REQ( h->Attach( x.a ) && h->IsValid() && h->GetRawPtr() == x.a, at << ": a second handle was refused" ); if( o.b & 1 ) { REQ( h->Attach( x.a ), at << ": attaching the same entity again failed" ); } } } break;
        case 8: { at = "move"; Slot* x = live( o.a, []( Slot& z ) { return !z.linked; } ); if( !x || !x->a->GetParentIGES() ) break; int mm = x->a->GetParentIGES() == ra( 0 ) ? 0 : 1; eq( "UnlinkEntity", o.b & 1 ? da[mm]->UnlinkEntity( x->h ) : da[mm]->UnlinkEntity( x->a ), cb[mm]->UnlinkEntity( x->b ) ); lives(); if( o.b & 2 ) eq( "AddEntity", da[m]->AddEntity( x->h ), cb[m]->AddEntity( x->b ) ); } break;
        case 9: at = o.v & 1 ? "Cull" : "Compact"; if( o.v & 1 ) { da[m]->Cull( o.b % 4 == 0 ); cb[m]->Cull( o.b % 4 == 0 ); } else { da[m]->Compact(); cb[m]->Compact(); } break;
        case 10: at = "Write"; save( m, o.b & 1, true ); break;
        case 11: { at = "Read"; if( !save( m, true, false ) ) break; if( o.v & 1 ) { eq( "Clear", da[m]->Clear(), cb[m]->Clear() ); lives(); showModel( m ); } std::string f = strf( "/m%d.igs", m ); if( o.b % 9 == 0 ) f = "/none.igs"; bool r = da[m]->Read( ( dir + "/a" + f ).c_str() ); eq( "Read", r, cb[m]->Read( ( dir + "/b" + f ).c_str() ) ); lives(); showModel( m ); save( m, true, true ); } break;
        case 12: at = "Clear"; if( o.b % 3 == 0 ) eq( "Clear", da[m]->Clear(), cb[m]->Clear() ); break;
        case 13: { at = "Export"; if( s.size() < 4 ) break; IGES_ENTITY_308 *a = NULL, *b = NULL; bool r = o.b & 1 ? da[m]->Export( da[1 - m], &a ) : da[m]->Export( ra( 1 - m ), &a ); eq( "Export", r, cb[m]->Export( cb[1 - m], &b ) ); REQ( ( a != NULL ) == ( b != NULL ), at << ": a package " << ( a ? "" : "not " ) << "returned" ); lives(); save( 0, true, true ); save( 1, true, true ); } break;
        case 14: { at = "names"; std::string n; char* p = o.b & 1 ? da[m]->GetNewPartName() : da[m]->GetNewAssemblyName( NULL ); if( o.b & 1 ) cb[m]->GetNewPartName( n ); else cb[m]->GetNewAssemblyName( n ); std::string t = p ? p : ""; delete [] p; 
                    REQ( p && t.size() == n.size() && t.size() >= 4 && t.substr( 0, 4 ) == n.substr( 0, 4 ), at << ": '" << t << "' and '" << n << "'" );
                    REQ( names.insert( t ).second && t != n, at << ": the name '" << t << "' was given twice" ); } break;
        case 15: at = "unlink"; unlink( o ); break;
        case 16: { at = "replace model"; if( o.b % 3 ) break; delete da[m]; delete cb[m]; da[m] = NULL; cb[m] = NULL; lives(); da[m] = new DLL_IGES; cb[m] = new IGES; } break;
        case 17: { at = "new entity for a handle"; if( s.empty() ) break; Slot& x = s[o.a % s.size()]; if( !x.h || x.la ) break; bool was = x.h->IsValid(); REQ( !was, "harness" );
                   if( o.v % 3 == 0 ) x.h->SetAPIParentIGES( (IGES*)NULL ); else if( o.v % 3 == 1 ) x.h->SetAPIParentIGES( *da[m] ); else { std::unique_ptr<DLL_IGES> tmp( new DLL_IGES ); x.h->SetAPIParentIGES( *tmp ); }    // ... which goes away
                   REQ( x.h->NewEntity() && x.h->IsValid(), at << ": NewEntity() failed" ); int t = x.type; DLL_IGES_ENTITY* h = x.h; x.h = NULL; s.emplace_back(); Slot& y = s.back(); y.type = t; y.h = h; y.a = h->GetRawPtr(); y.a->AttachValidFlag( &y.la );
                   REQ( modA( y.a->GetParentIGES() ) == ( o.v % 3 == 1 ? strf( "M%d", m ) : "nil" ), at << ": the entity belongs to " << modA( y.a->GetParentIGES() ) );
                   if( o.v % 3 == 1 ) cb[m]->NewEntity( t, &y.b ); else y.b = mkCore( t ); y.b->AttachValidFlag( &y.lb ); } break;
        }
        lives();
    }
};

void build( Src& s, Ctx& c )
{
    std::vector<Op> ops; int n = s.range( 4, c.thorough ? 90 : 60 );
    std::vector<int> w = { 22, 14, 20, 14, 6, 8, 4, 3, 1, 1, 3, 1, 1, 1, 1, 5, 1, 1 };
    for( int i = 0; i < n; ++i )
    {
        Op o; o.k = i < 3 ? 0 : (int)s.weighted( w ); o.v = (int)s.draw( 240 ); o.a = s.draw( 5040 ); o.b = s.draw( 5040 ); o.c = s.draw( 256 );
        if( o.k == 0 && s.flip() ) { o.a = o.a % 7; }      // more of the simple ones
        for( double& x : o.x ) x = val( s );
        o.s = word( s, o.k == 4 ? 90 : 10 ); ops.push_back( o );
        if( o.k == 0 ) { Op p = o; p.k = 1; p.a = 100000; p.b = s.draw( 64 ); p.c = s.draw( 32 ); if( !s.chance( 1, 6 ) ) ops.push_back( p ); }
    }
    bool lk = s.chance( 1, 8 ); for( auto& o : ops ) c.desc += strf( "%d/%d ", o.k, o.v );
    auto run = [&]( bool first )
    {
        World W; W.dir = c.scratch; for( int i = 0; i < 2; ++i ) { W.da[i] = new DLL_IGES; W.cb[i] = new IGES; }
        for( auto f : { "/a/m0.igs", "/a/m1.igs", "/b/m0.igs", "/b/m1.igs" } ) unlink( ( c.scratch + f ).c_str() );
        for( Op o : ops ) { if( o.k == 1 && o.a == 100000 ) { W.at = "set parameters"; if( !W.s.empty() && W.s.back().la && W.s.back().h && W.s.back().attached ) W.params( W.s.back(), o ); W.lives(); } else W.step( o ); if( c.verbose ) fprintf( stderr, "op %d: %s\n", o.k, W.at.c_str() ); }
        W.at = "end"; for( size_t i = 0; i < W.s.size(); ++i ) W.show( i );
        for( int i = 0; i < 2; ++i ) { W.showModel( i ); W.save( i, true, true ); }
        W.lives(); for( size_t i = 0; i < W.s.size(); ++i ) W.show( i );
        if( first )
        {
            c.nontrivial = W.s.size() >= 4 && W.files > 0; c.label( "entities", (long)W.s.size() ); c.label( "operations", W.ops ); c.label( "refused", W.refused ); c.label( "empty handles asked", W.dead ); c.label( "files compared", W.files ); c.label( "arrays", W.arrays ); c.label( "queries", W.shows );
        }
        W.finish();
    };
    run( true );
    if( lk ) { size_t l = leak( [&]() { run( false ); } ); c.label( "leak test" ); REQ( l == 0, "every run loses " << l << " bytes" ); }
}
PROPERTY( "C19", "model", "at least four entities were made and a pair of files was compared", 14000, 140000, build );

// ---- segments, outlines and boards
struct GSeg { DLL_MCAD_SEGMENT* h = NULL; MCAD_SEGMENT* a = NULL; MCAD_SEGMENT* b = NULL; bool la = false, lb = false; };
struct GOut { bool pcb = false; DLL_MCAD_OUTLINE* h = NULL; MCAD_OUTLINE* a = NULL; MCAD_OUTLINE* b = NULL; bool la = false, lb = false; };
template<class T> struct Arr { T** a = NULL; int n = 0; std::vector<T*> b; ~Arr() { delete [] a; } };

struct Geo
{
    std::deque<GSeg> sg; std::deque<GOut> ot; DLL_IGES da; IGES cb; std::string at, dir; long pieces = 0, merged = 0, refused = 0, surfaces = 0, dead = 0, hits = 0;
    Arr<IGES_ENTITY_144> surf; Arr<IGES_CURVE> curv; Arr<IGES_ENTITY_126> cop;
    ~Geo()
    {
        for( auto& x : sg ) { if( x.lb ) delete x.b; delete x.h; }
        for( auto& x : ot ) { if( x.lb ) delete x.b; delete x.h; }
    }
    void eq( const char* what, bool a, bool b ) { REQ( a == b, at << ": " << what << " returned " << a << " through the handle and " << b << " from the object" ); if( !b ) ++refused; }
    static std::string pt( const MCAD_POINT& p ) { return strf( "(%a %a %a)", p.x, p.y, p.z ); }
    static std::string dump( MCAD_SEGMENT* s )
    {
        if( !s ) return "nil"; double l = s->GetLength(); MCAD_POINT p, q, m; bool r1 = s->GetBoundingBox( p, q ), r2 = s->GetMidpoint( m );
        return strf( "%d r%a a%a %a %a %a l%a cw%d ", (int)s->GetSegType(), s->GetRadius(), s->GetStartAngle(), s->GetEndAngle(), s->GetMSAngle(), s->GetMEAngle(), l, s->IsCW() ) + pt( s->GetCenter() ) + pt( s->GetStart() ) + pt( s->GetEnd() ) + pt( s->GetMStart() ) + pt( s->GetMEnd() ) + ( r1 ? pt( p ) + pt( q ) : "-" ) + ( r2 ? pt( m ) : "-" );
    }
    static std::string ask( DLL_MCAD_SEGMENT* h, int& yes )
    {   // the same through the handle
        yes = 0; MCAD_SEGTYPE t = MCAD_SEGTYPE_NONE; double r = 0, a1 = 0, a2 = 0, a3 = 0, a4 = 0, l = 0; bool cw = false; MCAD_POINT c, s, e, f, g, p, q, m;
        yes += h->GetSegType( t ); yes += h->GetRadius( r ); yes += h->GetStartAngle( a1 ); yes += h->GetEndAngle( a2 ); yes += h->GetFirstAngle( a3 ); yes += h->GetLastAngle( a4 ); yes += h->GetLength( l ); yes += h->IsCW( cw );
        yes += h->GetCenter( c ); yes += h->GetStart( s ); yes += h->GetEnd( e ); yes += h->GetFirstPoint( f ); yes += h->GetLastPoint( g ); bool r1 = h->GetBoundingBox( p, q ), r2 = h->GetMidpoint( m );
        std::string x = strf( "%d r%a a%a %a %a %a l%a cw%d ", (int)t, r, a1, a2, a3, a4, l, cw ) + pt( c ) + pt( s ) + pt( e ) + pt( f ) + pt( g ) + ( r1 ? pt( p ) + pt( q ) : "-" ) + ( r2 ? pt( m ) : "-" );
        if( !h->IsValid() ) yes += r1 + r2; return x;
    }
    static std::string dump( MCAD_OUTLINE* o )
    {
        std::string t = strf( "type %d closed %d contiguous %d\n", (int)o->GetOutlineType(), o->IsClosed(), o->IsContiguous() );
        for( auto x : *o->GetSegments() ) t += "s " + dump( x ) + "\n"; for( auto x : *o->GetCutouts() ) t += "c {" + dump( x ) + "}\n"; for( auto x : *o->GetDrillHoles() ) t += "h " + dump( x ) + "\n"; for( auto& x : *o->GetErrors() ) t += "e " + x + "\n"; return t;
    }
    void lives()
    {
        for( size_t i = 0; i < sg.size(); ++i ) { GSeg& x = sg[i]; REQ( x.la == x.lb, at << ": segment " << i << " is " << ( x.la ? "alive" : "gone" ) << " when used through a handle and " << ( x.lb ? "alive" : "gone" ) << " otherwise" ); if( x.h ) REQ( !x.h->IsValid() || ( x.la && x.h->GetRawPtr() == x.a ), at << ": the handle of segment " << i << " is stale" ); }
        for( size_t i = 0; i < ot.size(); ++i ) { GOut& x = ot[i]; REQ( x.la == x.lb, at << ": outline " << i << " is " << ( x.la ? "alive" : "gone" ) << " when used through a handle and " << ( x.lb ? "alive" : "gone" ) << " otherwise" ); if( x.h ) REQ( !x.h->IsValid() || ( x.la && x.h->GetRawPtr() == x.a ), at << ": the handle of outline " << i << " is stale" ); }
    }
    void show( GSeg& x )
    {
        if( !x.h ) return; int yes = 0; std::string t = ask( x.h, yes ); 
        if( x.h->IsValid() ) { REQ( yes == 13, at << ": a query was refused" ); REQ( t == dump( x.a ), at << ": the handle says " << t << ", its segment " << dump( x.a ) ); REQ( dump( x.a ) == dump( x.b ), at << ": the segments differ:\n" << dump( x.a ) << "\n" << dump( x.b ) ); }
        else { ++dead; REQ( !yes && !x.h->GetRawPtr(), at << ": a handle without a segment answers" ); MCAD_POINT* l = NULL; int n = 0; MCAD_INTERSECT_FLAG f; REQ( !x.h->GetIntersections( x.b, l, n, f ) && !l && !n, at << ": a handle without a segment has intersections" ); }
    }
    template<class T> static bool sameList( T** l, int n, std::list<T*>& q ) { if( n != (int)q.size() ) return false; int i = 0; for( auto x : q ) if( l[i++] != x ) return false; return true; }
    void show( GOut& x )
    {
        if( !x.h ) return; MCAD_SEGMENT **sl = (MCAD_SEGMENT**)1, **dl = (MCAD_SEGMENT**)1; MCAD_OUTLINE** cl = (MCAD_OUTLINE**)1; char const** el = (char const**)1; int ns = 7, nd = 7, nc = 7, ne = 7; bool b1 = false, b2 = false;
        bool r1 = x.h->GetSegments( sl, ns ), r2 = x.h->GetDrillHoles( dl, nd ), r3 = x.h->GetCutouts( cl, nc ), r4 = x.h->GetErrors( el, ne ), r5 = x.h->IsClosed( b1 ), r6 = x.h->IsContiguous( b2 );
        if( !x.h->IsValid() ) { ++dead; REQ( !r1 && !r2 && !r3 && !r4 && !r5 && !r6 && !sl && !dl && !cl && !el && !ns && !nd && !nc && !ne && !x.h->GetRawPtr(), at << ": a handle without an outline answers" ); return; }
        REQ( r1 == ( ns > 0 ) && r2 == ( nd > 0 ) && r3 == ( nc > 0 ) && r4 == ( ne > 0 ) && r5 && r6, at << ": a query failed" );
        bool ok = sameList( sl, ns, *x.a->GetSegments() ) && sameList( dl, nd, *x.a->GetDrillHoles() ) && sameList( cl, nc, *x.a->GetCutouts() ) && ne == (int)x.a->GetErrors()->size() && b1 == x.a->IsClosed() && b2 == x.a->IsContiguous();
        int i = 0; if( ok ) for( auto& t : *x.a->GetErrors() ) ok = ok && t == el[i++];
        delete [] sl; delete [] dl; delete [] cl; delete [] el;
        REQ( ok, at << ": the arrays differ from the contents of the outline" ); REQ( dump( x.a ) == dump( x.b ), at << ": the outlines differ:\n" << dump( x.a ) << "\n" << dump( x.b ) );
    }
    GSeg& addSeg() { sg.emplace_back(); return sg.back(); }
    static void par( const double* q, int kind, MCAD_POINT* p, bool& cw )
    {   // 0 line, 1 arc, 2 circle; all on a coarse grid
        double x = floor( q[0] / 5 ), y = floor( q[1] / 5 ), R = 1 + floor( fabs( q[2] ) / 10 ); cw = q[4] > 50; const double D[8][2] = { { 1, 0 }, { 0.8, 0.6 }, { 0, 1 }, { -0.6, 0.8 }, { -1, 0 }, { -0.8, -0.6 }, { 0, -1 }, { 0.6, -0.8 } };
        int i = (int)fabs( q[3] ) % 8, j = kind == 2 ? i : ( i + 1 + (int)fabs( q[4] ) % 7 ) % 8;
        if( kind == 0 ) { p[0] = MCAD_POINT( x, y, 0 ); p[1] = MCAD_POINT( x + floor( q[2] / 5 ), y + floor( q[3] / 5 ), 0 ); }
        else { p[0] = MCAD_POINT( x, y, 0 ); p[1] = MCAD_POINT( x + R * D[i][0], y + R * D[i][1], 0 ); p[2] = MCAD_POINT( x + R * D[j][0], y + R * D[j][1], 0 ); }
    }
    void newSeg( const Op& o )
    {
        MCAD_POINT p[3]; bool cw = false; int kind = o.v % 3; par( o.x, kind, p, cw ); GSeg& x = addSeg(); at = strf( "new segment %d", kind );
        x.h = new DLL_MCAD_SEGMENT( o.b % 3 != 0 ); REQ( x.h->IsValid() == ( o.b % 3 != 0 ), at << ": the new handle is wrong" ); if( o.b % 3 == 1 ) REQ( x.h->NewSegment(), at << ": NewSegment() failed" ); x.b = new MCAD_SEGMENT; x.b->AttachValidFlag( &x.lb );
        bool r = kind ? x.h->SetParams( p[0], p[1], p[2], cw ) : x.h->SetParams( p[0], p[1] ), q = kind ? x.b->SetParams( p[0], p[1], p[2], cw ) : x.b->SetParams( p[0], p[1] );
        x.a = x.h->GetRawPtr(); REQ( x.a, at << ": no segment" ); x.a->AttachValidFlag( &x.la ); eq( "SetParams", r, q ); show( x );
    }
    GSeg* seg( unsigned u, int type = -1 ) { std::vector<GSeg*> v; for( auto& x : sg ) if( x.la && x.h && x.h->IsValid() && ( type < 0 ? true : (int)x.a->GetSegType() == type ) ) v.push_back( &x ); return v.empty() ? NULL : v[u % v.size()]; }
    GOut* out( unsigned u, bool pcbOnly = false, GOut* other = NULL ) { std::vector<GOut*> v; for( auto& x : ot ) if( x.la && x.h && x.h->IsValid() && &x != other && ( !pcbOnly || x.pcb ) ) v.push_back( &x ); return v.empty() ? NULL : v[u % v.size()]; }
    void newOut( const Op& o )
    {
        ot.emplace_back(); GOut& x = ot.back(); x.pcb = o.b & 1; bool later = o.b & 2; at = "new outline"; if( x.pcb ) x.h = new DLL_IGES_GEOM_PCB( !later ); else x.h = new DLL_MCAD_OUTLINE( !later );
        REQ( x.h->IsValid() == !later, at << ": the new handle is wrong" ); if( later || ( o.b & 4 ) ) REQ( x.h->NewOutline(), at << ": NewOutline() failed" ); x.b = x.pcb ? new IGES_GEOM_PCB : new MCAD_OUTLINE; x.a = x.h->GetRawPtr(); REQ( x.a, at << ": no outline" ); x.a->AttachValidFlag( &x.la ); x.b->AttachValidFlag( &x.lb );
        // shape: rectangle, rounded on one side, circle, triangle
        double X = floor( o.x[0] / 10 ), Y = floor( o.x[1] / 10 ), W = 4 + floor( fabs( o.x[2] ) / 8 ), H = 4 + floor( fabs( o.x[3] ) / 8 ); int kind = o.v % 4; struct L { MCAD_POINT c, a, b; int arc; }; std::vector<L> l; auto P = []( double x, double y ) { return MCAD_POINT( x, y, 0 ); };
        if( fabs( o.x[0] ) > 200 || fabs( o.x[1] ) > 200 ) { X = fmod( X, 10 ); Y = fmod( Y, 10 ); } W = fmod( W, 30 ) + 4; H = fmod( H, 30 ) + 4;
        if( kind == 2 ) l.push_back( { P( X, Y ), P( X + W / 2, Y ), P( X + W / 2, Y ), 1 } );
        else if( kind == 3 ) { l.push_back( { P( 0, 0 ), P( X, Y ), P( X + W, Y ), 0 } ); l.push_back( { P( 0, 0 ), P( X + W, Y ), P( X, Y + H ), 0 } ); l.push_back( { P( 0, 0 ), P( X, Y + H ), P( X, Y ), 0 } ); }
        else { l.push_back( { P( 0, 0 ), P( X, Y ), P( X + W, Y ), 0 } ); l.push_back( kind ? L{ P( X + W, Y + H / 2 ), P( X + W, Y ), P( X + W, Y + H ), 1 } : L{ P( 0, 0 ), P( X + W, Y ), P( X + W, Y + H ), 0 } ); l.push_back( { P( 0, 0 ), P( X + W, Y + H ), P( X, Y + H ), 0 } ); l.push_back( { P( 0, 0 ), P( X, Y + H ), P( X, Y ), 0 } ); }
        if( o.c % 16 == 15 ) std::swap( l.front(), l.back() ); if( o.c % 16 == 14 ) l.pop_back();
        for( size_t i = 0; i < l.size(); ++i )
        {
            GSeg& s = addSeg(); s.h = new DLL_MCAD_SEGMENT( true ); s.a = s.h->GetRawPtr(); s.b = new MCAD_SEGMENT; s.a->AttachValidFlag( &s.la ); s.b->AttachValidFlag( &s.lb );
            if( l[i].arc ) eq( "SetParams", s.h->SetParams( l[i].c, l[i].a, l[i].b, false ), s.b->SetParams( l[i].c, l[i].a, l[i].b, false ) ); else eq( "SetParams", s.h->SetParams( l[i].a, l[i].b ), s.b->SetParams( l[i].a, l[i].b ) );
            bool e1 = false, e2 = false, H2 = o.c & ( 16 << ( i % 3 ) ), r = H2 ? x.h->AddSegment( *s.h, e1 ) : x.h->AddSegment( s.a, e1 ), q = x.b->AddSegment( s.b, e2 ); eq( "AddSegment", r, q ); REQ( e1 == e2, at << ": the error flags differ" ); settle( s, H2, r );
        }
        lives(); show( x );
    }
    // an object which was taken over by an outline
    void settle( GSeg& s, bool byHandle, bool ok )
    {
        if( !ok ) { REQ( s.h->IsValid(), at << ": a segment which was refused is lost" ); return; }
        if( byHandle ) REQ( !s.h->IsValid() && !s.h->GetRawPtr(), at << ": the handle still holds a segment which was taken over" ); else s.h->Detach();
        if( s.la ) s.a->DetachValidFlag( &s.la ); if( s.lb ) s.b->DetachValidFlag( &s.lb ); s.la = s.lb = false; s.a = s.b = NULL; ++merged;
    }
    void settle( GOut& s, bool byHandle, bool ok )
    {
        if( ok ) { if( byHandle ) REQ( !s.h->IsValid() && !s.h->GetRawPtr(), at << ": the handle still holds an outline which was taken over" ); else s.h->Detach(); if( s.la ) s.a->DetachValidFlag( &s.la ); if( s.lb ) s.b->DetachValidFlag( &s.lb ); ++merged; }
        else { REQ( s.h->IsValid(), at << ": an outline which was refused is lost" ); s.h->DelOutline(); REQ( !s.h->IsValid() && !s.la, at << ": DelOutline() left the outline" ); if( s.lb ) delete s.b; }
        s.la = s.lb = false; s.a = s.b = NULL;
    }
    template<class T> void grown( Arr<T>& v, T** was, int n, const std::vector<T*>& old, bool r, size_t more )
    {
        (void)was; REQ( v.n == n + ( r ? (int)more : 0 ), at << ": " << v.n << " items in the array, expected " << n << " and " << more << " more" );
        for( int i = 0; i < n; ++i ) REQ( v.a[i] == old[i], at << ": an earlier item of the array changed" ); for( int i = n; i < v.n; ++i ) REQ( v.a[i] && v.a[i]->GetParentIGES() == da.GetRawPtr(), at << ": an item of the array is not an entity of the model" );
    }
    void step( const Op& o )
    {
        switch( o.k )
        {
        case 0: newSeg( o ); break;
        case 1: newOut( o ); break;
        case 2: { at = "intersections"; GSeg *x = seg( o.a ), *y = seg( o.b ); if( !x ) break; MCAD_POINT* l = NULL; int n = 0; MCAD_INTERSECT_FLAG f = MCAD_IFLAG_MULTIEDGE, g = MCAD_IFLAG_NONE; std::list<MCAD_POINT> q; bool r = o.c & 1 ? x->h->GetIntersections( *y->h, l, n, f ) : x->h->GetIntersections( y->a, l, n, f ); eq( "GetIntersections", r, x->b->GetIntersections( *y->b, q, g ) ); REQ( f == g, at << ": the flags are " << f << " and " << g );
                  if( r ) { ++hits; REQ( n == (int)q.size(), at << ": " << n << " and " << q.size() << " points" ); int i = 0; for( auto& p : q ) { REQ( pt( l[i] ) == pt( p ), at << ": the points differ" ); ++i; } MCAD_POINT* l0 = l; int n0 = n; REQ( !x->h->GetIntersections( y->a, l, n, f ) && l == l0 && n == n0, at << ": an array which was not empty was accepted" ); } else REQ( !l && !n, at << ": an array without intersections" );
                  if( r && n >= 1 && n <= 2 && ( o.c & 6 ) ) split( *x, l, n, o ); delete [] l; } break;
        case 3: { at = "query segment"; if( !sg.empty() ) show( sg[o.a % sg.size()] ); } break;
        case 4: { at = "query outline"; if( ot.empty() ) break; GOut& x = ot[o.a % ot.size()]; show( x ); if( !x.la ) break; MCAD_POINT p( floor( o.x[0] / 5 ), floor( o.x[1] / 5 ), 0 ); bool e1 = false, e2 = false; eq( "IsInside", x.h->IsInside( p, e1 ), x.b->IsInside( p, e2 ) ); REQ( e1 == e2, at << ": the error flags differ" ); if( o.c % 8 == 0 ) { x.h->ClearErrors(); x.b->ClearErrors(); show( x ); } } break;
        case 5: { GOut* x = out( o.a ); GOut* y = out( o.b, false, x ); int w = o.v % 4; if( !x || !y ) break; bool H = o.c & 1, e1 = false, e2 = false, r, q; at = w == 0 ? "SubOutline" : w == 1 ? "AddCutout" : w == 2 ? "AddOutline" : "AddCutout without test"; 
                  if( w == 0 ) { r = H ? x->h->SubOutline( *y->h, e1 ) : x->h->SubOutline( y->a, e1 ); q = x->b->SubOutline( y->b, e2 ); } else if( w == 2 ) { r = H ? x->h->AddOutline( *y->h, e1 ) : x->h->AddOutline( y->a, e1 ); q = x->b->AddOutline( y->b, e2 ); } else { r = H ? x->h->AddCutout( *y->h, w == 1, e1 ) : x->h->AddCutout( y->a, w == 1, e1 ); q = x->b->AddCutout( y->b, w == 1, e2 ); }
                  eq( at.c_str(), r, q ); REQ( e1 == e2, at << ": the error flags differ" ); settle( *y, H, r ); lives(); show( *x ); } break;
        case 6: { GOut* x = out( o.a ); GSeg* y = seg( o.b, o.c & 8 ? -1 : (int)MCAD_SEGTYPE_CIRCLE ); int w = o.v % 4; if( !x || !y ) break; bool H = o.c & 1, e1 = false, e2 = false, r, q; at = w == 0 ? "SubOutline(circle)" : w == 1 ? "AddCutout(circle)" : w == 2 ? "AddOutline(circle)" : "AddCutout(circle) without test";
                  if( w == 0 ) { r = H ? x->h->SubOutline( *y->h, e1 ) : x->h->SubOutline( y->a, e1 ); q = x->b->SubOutline( y->b, e2 ); } else if( w == 2 ) { r = H ? x->h->AddOutline( *y->h, e1 ) : x->h->AddOutline( y->a, e1 ); q = x->b->AddOutline( y->b, e2 ); } else { r = H ? x->h->AddCutout( *y->h, w == 1, e1 ) : x->h->AddCutout( y->a, w == 1, e1 ); q = x->b->AddCutout( y->b, w == 1, e2 ); }
                  eq( at.c_str(), r, q ); REQ( e1 == e2, at << ": the error flags differ" ); settle( *y, H, r ); lives(); show( *x ); } break;
        case 7: { GOut* x = out( o.a, true ); if( !x ) break; DLL_IGES_GEOM_PCB* h = (DLL_IGES_GEOM_PCB*)x->h; IGES_GEOM_PCB* b = (IGES_GEOM_PCB*)x->b; IGES* m = da.GetRawPtr(); double z = floor( o.x[0] / 20 ), t = z + 1 + floor( fabs( o.x[1] ) / 20 ); int w = o.v % 5; bool rev = o.c & 1, r, q, e1 = false, e2 = false; if( fabs( z ) > 100 ) { z = 0; t = 1.5; }
                  std::vector<IGES_ENTITY_144*> os( surf.a, surf.a + surf.n ); std::vector<IGES_CURVE*> oc( curv.a, curv.a + curv.n ); std::vector<IGES_ENTITY_126*> op( cop.a, cop.a + cop.n );
                  GSeg* s = seg( o.b ); if( w > 1 && !s ) break; at = w == 0 ? "GetVerticalSurface" : w == 1 ? "GetTrimmedPlane" : w == 2 ? "GetCurves" : w == 3 ? "GetCurveOnPlane" : "GetSegmentWall";
                  if( w == 0 ) { std::vector<IGES_ENTITY_144*> v; r = h->GetVerticalSurface( m, e1, surf.a, surf.n, t, z ); q = b->GetVerticalSurface( &cb, e2, v, t, z ); eq( at.c_str(), r, q && !v.empty() ); grown( surf, surf.a, (int)os.size(), os, r, v.size() ); surfaces += r; }
                  if( w == 1 ) { std::vector<IGES_ENTITY_144*> v; r = h->GetTrimmedPlane( m, e1, surf.a, surf.n, z, rev ); q = b->GetTrimmedPlane( &cb, e2, v, z, rev ); eq( at.c_str(), r, q && !v.empty() ); grown( surf, surf.a, (int)os.size(), os, r, v.size() ); surfaces += r; }
                  if( w == 2 ) { std::list<IGES_CURVE*> v; r = h->GetCurves( m, curv.a, curv.n, z, s->a ); q = b->GetCurves( &cb, v, z, s->b ); eq( at.c_str(), r, q && !v.empty() ); grown( curv, curv.a, (int)oc.size(), oc, r, v.size() ); surfaces += r; }
                  if( w == 3 ) { std::list<IGES_ENTITY_126*> v; MCAD_POINT p0, p1; s->b->GetBoundingBox( p0, p1 ); if( o.c & 2 ) { p0.x -= 3; p0.y -= 4; p1.x += 2; p1.y += 7; } if( p1.x - p0.x < 0.1 ) p1.x += 1; if( p1.y - p0.y < 0.1 ) p1.y += 1; r = h->GetCurveOnPlane( m, cop.a, cop.n, p0.x, p1.x, p0.y, p1.y, z, s->a, rev ); q = b->GetCurveOnPlane( &cb, v, p0.x, p1.x, p0.y, p1.y, z, s->b, rev ); eq( at.c_str(), r, q && !v.empty() ); grown( cop, cop.a, (int)op.size(), op, r, v.size() ); surfaces += r; }
                  if( w == 4 ) { std::vector<IGES_ENTITY_144*> v; r = h->GetSegmentWall( m, surf.a, surf.n, t, z, s->a, rev ); q = b->GetSegmentWall( &cb, v, t, z, s->b, rev ); eq( at.c_str(), r, q && !v.empty() ); grown( surf, surf.a, (int)os.size(), os, r, v.size() ); surfaces += r; }
                  REQ( e1 == e2, at << ": the error flags differ" ); show( *x ); } break;
        case 8: { if( o.c & 1 ) { GSeg* x = seg( o.a ); if( !x ) break; int w = o.v % 3; at = strf( "handle of a segment, way %d", w );
                      if( w == 0 ) { x->h->Detach(); REQ( x->la && !x->h->IsValid(), at << ": Detach() failed" ); show( *x ); REQ( !x->h->Attach( NULL ) && x->h->Attach( x->a ) && x->h->IsValid(), at << ": Attach() failed" ); REQ( !x->h->Attach( x->a ) && !x->h->Attach( x->b ), at << ": a second segment was attached" ); }
                      else if( w == 1 && o.b % 3 == 0 ) { x->h->DelSegment(); delete x->b; lives(); show( *x ); } else if( w == 2 && o.b % 3 == 0 ) { delete x->h; x->h = NULL; delete x->b; lives(); } }
                  else { GOut* x = out( o.a ); if( !x ) break; int w = o.v % 3; at = strf( "handle of an outline, way %d", w );
                      if( w == 0 ) { x->h->Detach(); REQ( x->la && !x->h->IsValid(), at << ": Detach() failed" ); show( *x ); if( x->pcb ) { std::unique_ptr<MCAD_OUTLINE> t( new MCAD_OUTLINE ); REQ( !x->h->Attach( t.get() ) && !x->h->IsValid(), at << ": a plain outline was attached to the handle of a board" ); } REQ( !x->h->Attach( NULL ) && x->h->Attach( x->a ) && x->h->IsValid(), at << ": Attach() failed" ); REQ( !x->h->Attach( x->b ), at << ": a second outline was attached" ); }
                      else if( w == 1 && o.b % 3 == 0 ) { x->h->DelOutline(); delete x->b; lives(); show( *x ); } else if( w == 2 && o.b % 3 == 0 ) { delete x->h; x->h = NULL; delete x->b; lives(); } } } break;
        case 9: { at = "midpoint"; GSeg* x = seg( o.a ); MCAD_POINT p; if( !x || !x->b->GetMidpoint( p ) ) break; split( *x, &p, 1, o ); } break;
        }
        lives();
    }
    void split( GSeg& x, MCAD_POINT* l, int n, const Op& o )
    {
        at = "Split"; MCAD_POINT* pl[2] = { l, l + 1 }; std::list<MCAD_POINT> q( l, l + n ); std::list<MCAD_SEGMENT*> ql; MCAD_SEGMENT** nl = NULL; int nn = 0; MCAD_SEGMENT dummy; if( o.c & 64 ) { nl = new MCAD_SEGMENT*[1]; nl[0] = &dummy; nn = 1; } int n0 = nn;
        bool r = x.h->Split( pl, n, nl, nn ); eq( "Split", r, x.b->Split( q, ql ) ); std::unique_ptr<MCAD_SEGMENT*[]> own( nl ); REQ( nn == n0 + (int)ql.size() && ( !n0 || nl[0] == &dummy ), at << ": " << nn << " segments in the array, " << ql.size() << " in the list" );
        int i = n0; for( auto b : ql ) { GSeg& y = addSeg(); y.h = new DLL_MCAD_SEGMENT( false ); y.a = nl[i++]; y.b = b; REQ( y.h->Attach( y.a ), at << ": Attach() failed" ); y.a->AttachValidFlag( &y.la ); y.b->AttachValidFlag( &y.lb ); show( y ); ++pieces; }
        MCAD_SEGMENT** z = NULL; int zn = 0; REQ( x.h->Split( NULL, 0, z, zn ) && !z && !zn, at << ": Split() at no points" ); REQ( !x.h->Split( NULL, 1, z, zn ) && !z && !zn, at << ": Split() at a NULL pointer" ); show( x );
    }
    void end()
    {
        at = "end"; for( auto& x : sg ) show( x ); for( auto& x : ot ) show( x ); mkdir( ( dir + "/a" ).c_str(), 0755 ); mkdir( ( dir + "/b" ).c_str(), 0755 );
        bool a = da.Write( ( dir + "/a/g.igs" ).c_str(), true ), b = cb.Write( ( dir + "/b/g.igs" ).c_str(), true ); eq( "Write", a, b ); if( a ) { std::string x = masked( readFile( dir + "/a/g.igs" ) ), y = masked( readFile( dir + "/b/g.igs" ) ); REQ( x == y, at << ": the files differ " << where( x, y ) ); }
    }
};

void outlines( Src& s, Ctx& c )
{
    std::vector<Op> ops; int n = s.range( 4, c.thorough ? 60 : 36 ); std::vector<int> w = { 16, 18, 14, 6, 8, 16, 10, 24, 6, 3 };
    for( int i = 0; i < n; ++i ) { Op o; o.k = i < 2 ? 1 : i < 4 ? 0 : (int)s.weighted( w ); o.v = (int)s.draw( 240 ); o.a = s.draw( 5040 ); o.b = s.draw( 5040 ); o.c = s.draw( 256 ); for( double& x : o.x ) x = val( s ); ops.push_back( o ); }
    bool lk = s.chance( 1, 8 ); for( auto& o : ops ) c.desc += strf( "%d/%d ", o.k, o.v );
    auto run = [&]( bool first )
    {
        Geo G; G.dir = c.scratch; for( auto& o : ops ) { G.step( o ); if( c.verbose ) fprintf( stderr, "op %d: %s\n", o.k, G.at.c_str() ); } G.end();
        if( first ) { c.nontrivial = G.merged >= 4 && G.surfaces > 0; c.label( "segments", (long)G.sg.size() ); c.label( "outlines", (long)G.ot.size() ); c.label( "taken over", G.merged ); c.label( "refused", G.refused ); c.label( "pieces", G.pieces ); c.label( "intersections", G.hits ); c.label( "geometry made", G.surfaces ); c.label( "empty handles asked", G.dead ); }
    };
    run( true );
    if( lk ) { size_t l = leak( [&]() { run( false ); } ); c.label( "leak test" ); REQ( l == 0, "every run loses " << l << " bytes" ); }
}
PROPERTY( "C19", "outline", "at least four segments or outlines were taken over and surfaces or curves were made", 10000, 60000, outlines );
}
