// C05: references stay consistent under every history of edits.
#include "model.h"
#include "exercise.h"
#include <algorithm>

namespace
{
struct Hist
{
    Src& s; Ctx& c;
    IGES *ig[2];
    std::vector<AEnt> m;                // every entity ever created
    std::vector<IGES_ENTITY*> out;
    std::vector<char> alive;            // expected
    std::vector<int> owner;             // index of the model
    std::vector<int> order[2];          // entities of a model in its own order
    std::vector<bool*> flag;            // observed liveness
    std::vector<char> loose;            // geometry of the entity was disturbed: it may be refused by Write()
    std::string log;

    Hist( Src& ss, Ctx& cc ) : s( ss ), c( cc ) { ig[0] = new IGES; ig[1] = new IGES; }
    ~Hist() { /* the models are destroyed by finish(); after a failure the process state is not trusted */ }

    // ---- abstract state
    static void childIdx( const AEnt& e, std::vector<int>& r )
    {
        if( e.xform >= 0 ) r.push_back( e.xform );
        if( e.colorEnt >= 0 ) r.push_back( e.colorEnt );
        for( auto& v : e.params ) if( ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i >= 0 ) r.push_back( (int)v.i );
        for( int p : e.props ) r.push_back( p );
    }
    std::vector<int> kids( int i ) { std::vector<int> r; childIdx( m[i], r ); return r; }
    bool refers( int p, int ch ) { for( int k : kids( p ) ) if( k == ch ) return true; return false; }
    int nrefs( int i ) { int n = 0; for( size_t p = 0; p < m.size(); ++p ) if( alive[p] && refers( (int)p, i ) ) ++n; return n; }
    bool reaches( int from, int to )
    {
        if( from == to ) return true;
        std::vector<char> seen( m.size(), 0 ); std::vector<int> todo( 1, from );
        while( todo.size() ) { int x = todo.back(); todo.pop_back(); for( int k : kids( x ) ) { if( k == to ) return true; if( !seen[k] ) { seen[k] = 1; todo.push_back( k ); } } }
        return false;
    }
    static bool isList( int t ) { return t == 102 || t == 308 || t == 180; }
    static int listBase( int t ) { return t == 102 || t == 180 ? 1 : t == 308 ? 3 : t == 144 ? 4 : 9999; }
    bool complete( int i )
    {
        AEnt& e = m[i]; auto P = [&]( int k ) { return e.params[k].i >= 0; };
        switch( e.type )
        {
        case 102: return e.params.size() > 1; case 120: return P( 0 ) && P( 1 ); case 122: return P( 0 ); case 142: return P( 1 ) && ( P( 2 ) || P( 3 ) );
        case 144: return P( 0 ); case 164: return P( 0 ); case 308: return e.params.size() > 3; case 408: return P( 0 );
        default: return true;
        }
    }
    bool orphan( int i )
    {
        int t = m[i].type;
        if( t == 124 || t == 314 ) return nrefs( i ) == 0;
        return ( m[i].dep != 0 && nrefs( i ) == 0 ) || !complete( i );
    }
    // an entity disappears: everything which referred to it lets go
    void gone( int x )
    {
        alive[x] = 0;
        for( size_t p = 0; p < m.size(); ++p )
        {
            AEnt& e = m[p];
            if( !alive[p] ) continue;
            if( e.xform == x ) e.xform = -1;
            if( e.colorEnt == x ) { e.colorEnt = -1; e.color = 0; }
            e.props.erase( std::remove( e.props.begin(), e.props.end(), x ), e.props.end() );
            int lb = listBase( e.type ); bool hit = false;
            // a composite curve which loses an inner segment lets go of all of them
            if( e.type == 102 && e.params.size() > 3 )
                for( size_t k = 2; k + 1 < e.params.size(); ++k ) if( e.params[k].i == x ) { e.params.resize( 1 ); loose[p] = 1; break; }
            for( size_t k = 0; k < e.params.size(); )
            {
                Val& v = e.params[k];
                if( ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i == x ) { hit = true; if( (int)k >= lb ) { e.params.erase( e.params.begin() + k ); continue; } v.i = -1; }
                ++k;
            }
            if( hit && ( e.type == 102 || e.type == 180 ) ) loose[p] = 1;
            if( hit && e.type == 180 ) e.params.resize( 1 );    // a boolean tree cannot lose a single operand
        }
        for( int k = 0; k < 2; ++k ) order[k].erase( std::remove( order[k].begin(), order[k].end(), x ), order[k].end() );
        m[x].params.clear(); m[x].props.clear(); m[x].xform = m[x].colorEnt = -1;
    }
    int cullModel( int w )
    {
        int n = 0;
        for( bool again = true; again; )
        {
            again = false;
            std::vector<int> o = order[w];
            for( int i : o ) if( orphan( i ) ) { gone( i ); again = true; ++n; }
        }
        return n;
    }

    // ---- observation through the public interface
    std::string name( int i ) { return strf( "#%d(%d)", i, m[i].type ); }
    int idx( IGES_ENTITY* p ) { if( !p ) return -1; for( size_t i = 0; i < out.size(); ++i ) if( out[i] == p && alive[i] ) return (int)i; return -2; }
    void check( const std::string& when )
    {
#define HREQ( cond, msg ) REQ( cond, when << ": " << msg << "\n" << log )
        for( size_t i = 0; i < m.size(); ++i )
            HREQ( *flag[i] == (bool)alive[i], name( (int)i ) << ( alive[i] ? " was destroyed although something needs it" : " still exists" ) );
        for( size_t i = 0; i < m.size(); ++i )
        {
            if( !alive[i] ) continue;
            AEnt& e = m[i]; IGES_ENTITY* p = out[i]; std::string w = name( (int)i ) + " ";
            IGES_ENTITY* q = NULL;
            HREQ( p->GetParentIGES() == ig[owner[i]], w << "belongs to another model" );
            bool b = p->GetTransform( &q );
            HREQ( idx( q ) == e.xform && b == ( e.xform >= 0 ), w << "transform is " << idx( q ) << ", expected " << e.xform );
            q = NULL; b = p->GetColorEntity( &q );
            HREQ( idx( q ) == e.colorEnt && b == ( e.colorEnt >= 0 ), w << "color entity is " << idx( q ) << ", expected " << e.colorEnt );
            IGES_COLOR col = COLOR_NONE; b = p->GetColor( col );
            if( e.colorEnt < 0 ) HREQ( b && col == e.color, w << "color is " << (int)col << " (" << b << "), expected " << e.color );
            else HREQ( !b, w << "GetColor() reports a color number while a color entity is set" );
            IGES_LINEFONT_PATTERN lf = LINEFONT_END; int iv = -1; bool bv = false; IGES_STAT_USE us; IGES_STAT_HIER hi; std::string lb;
            HREQ( p->GetLineFontPattern( lf ) && (int)lf == e.lfp, w << "line font is " << (int)lf << ", expected " << e.lfp );
            HREQ( p->GetLevel( iv ) && iv == e.level, w << "level is " << iv << ", expected " << e.level );
            HREQ( p->GetLineWeightNum( iv ) && iv == e.lw, w << "line weight is " << iv << ", expected " << e.lw );
            HREQ( p->GetVisibility( bv ) && bv == !e.blank, w << "visibility is " << bv );
            HREQ( p->GetEntityUse( us ) && ( m[i].type == 124 || m[i].type == 308 || m[i].type == 314 || m[i].type == 406 || (int)us == e.use ), w << "entity use is " << (int)us << ", expected " << e.use );
            HREQ( p->GetHierarchy( hi ) && (int)hi == e.hier, w << "hierarchy is " << (int)hi << ", expected " << e.hier );
            HREQ( p->GetEntitySubscript( iv ) && iv == e.subscript, w << "subscript is " << iv << ", expected " << e.subscript );
            p->GetLabel( lb ); HREQ( lb == e.label, w << "label is '" << lb << "', expected '" << e.label << "'" );
            HREQ( p->GetEntityType() == e.type && p->GetEntityForm() == e.form, w << "type and form are " << p->GetEntityType() << "-" << p->GetEntityForm() );
            q = out[i]; b = p->GetLineFontPatternEntity( &q ); HREQ( !b && !q, w << "has a line font entity" );
            q = out[i]; b = p->GetLevelEntity( &q ); HREQ( !b && !q, w << "has a level entity" );
            q = out[i]; b = p->GetView( &q ); HREQ( !b && !q, w << "has a view" );
            q = out[i]; b = p->GetLabelAssoc( &q ); HREQ( !b && !q, w << "has a label associativity" );
            std::multiset<int> ex( e.props.begin(), e.props.end() ), got;
            for( int k = 0; k < p->GetNOptionalEntities(); ++k ) got.insert( idx( p->GetOptionalEntity( k ) ) );
            HREQ( ex == got, w << "optional entities differ" );
            std::vector<int> el, gl;
            auto want = [&]( size_t from ) { for( size_t k = from; k < e.params.size(); ++k ) if( e.params[k].k == Val::PTR || e.params[k].k == Val::NPTR ) el.push_back( (int)e.params[k].i ); };
            switch( e.type )
            {
            case 102: { want( 1 ); IGES_ENTITY_102* x = dynamic_cast<IGES_ENTITY_102*>( p ); for( int k = 0; k < x->GetNCurves(); ++k ) gl.push_back( idx( x->GetCurve( k ) ) ); break; }
            case 120: { want( 0 ); IGES_ENTITY_120* x = dynamic_cast<IGES_ENTITY_120*>( p ); IGES_CURVE* cv = NULL; x->GetL( &cv ); gl.push_back( idx( cv ) ); cv = NULL; x->GetC( &cv ); gl.push_back( idx( cv ) ); break; }
            case 122: { want( 0 ); IGES_ENTITY_122* x = dynamic_cast<IGES_ENTITY_122*>( p ); IGES_CURVE* cv = NULL; x->GetDE( cv ); gl.push_back( idx( cv ) ); break; }
            case 142: { want( 0 ); IGES_ENTITY_142* x = dynamic_cast<IGES_ENTITY_142*>( p ); IGES_ENTITY* cv = NULL; x->GetSPTR( &cv ); gl.push_back( idx( cv ) ); cv = NULL; x->GetBPTR( &cv ); gl.push_back( idx( cv ) ); cv = NULL; x->GetCPTR( &cv ); gl.push_back( idx( cv ) ); break; }
            case 144:
            {
                want( 0 ); IGES_ENTITY_144* x = dynamic_cast<IGES_ENTITY_144*>( p ); IGES_ENTITY* su = NULL; x->GetPTS( su ); gl.push_back( idx( su ) ); IGES_ENTITY_142* o = NULL; x->GetPTO( o ); gl.push_back( idx( o ) );
                std::vector<int> g2; size_t n = 0; IGES_ENTITY_142** l = NULL; if( x->GetPTIList( n, l ) ) for( size_t k = 0; k < n; ++k ) g2.push_back( idx( l[k] ) );
                for( int k = 0; k < x->GetNPTI(); ++k ) gl.push_back( idx( x->GetPTI( k ) ) );
                HREQ( g2 == std::vector<int>( gl.begin() + 2, gl.end() ), w << "two queries for the inner boundaries disagree" );
                break;
            }
            case 164: { want( 0 ); IGES_ENTITY_164* x = dynamic_cast<IGES_ENTITY_164*>( p ); IGES_CURVE* cv = NULL; x->GetClosedCurve( &cv ); gl.push_back( idx( cv ) ); break; }
            case 180:
            {
                IGES_ENTITY_180* x = dynamic_cast<IGES_ENTITY_180*>( p );
                for( size_t k = 1; k < e.params.size(); ++k ) el.push_back( e.params[k].k == Val::NPTR ? (int)e.params[k].i : -100 - (int)e.params[k].i );
                for( int k = 0; k < x->GetNNodes(); ++k ) { BTREE_NODE* nd = x->GetNode( k ); gl.push_back( nd->op ? -100 - (int)nd->val : idx( nd->pEnt ) ); }
                break;
            }
            case 308: { want( 3 ); IGES_ENTITY_308* x = dynamic_cast<IGES_ENTITY_308*>( p ); size_t n = 0; IGES_ENTITY** l = NULL; if( x->GetDEList( n, l ) ) for( size_t k = 0; k < n; ++k ) gl.push_back( idx( l[k] ) ); break; }
            case 408: { want( 0 ); IGES_ENTITY_408* x = dynamic_cast<IGES_ENTITY_408*>( p ); IGES_ENTITY_308* d = NULL; x->GetDE( d ); gl.push_back( idx( d ) ); break; }
            default: break;
            }
            if( el != gl ) { std::string a, bb; for( int k : el ) a += strf( " %d", k ); for( int k : gl ) bb += strf( " %d", k ); HREQ( false, w << "refers to" << bb << ", expected" << a ); }
            IGES_STAT_DEPENDS dp; p->GetDependency( dp );
            HREQ( (int)dp == e.dep, w << "subordinate switch is " << (int)dp << ", expected " << e.dep );
            HREQ( (int)p->getNRefs() == nrefs( (int)i ), w << "knows of " << p->getNRefs() << " referring entities, expected " << nrefs( (int)i ) );
        }
    }

    // ---- construction
    int track( int type, IGES_ENTITY* p, int w )
    {
        AEnt e; e.type = type; m.push_back( e ); out.push_back( p ); alive.push_back( 1 ); owner.push_back( w ); loose.push_back( 0 );
        bool* f = new bool( true ); flag.push_back( f ); p->AttachValidFlag( f );
        order[w].push_back( (int)m.size() - 1 );
        return (int)m.size() - 1;
    }
    int make( int type, int w )
    {
        IGES_ENTITY* p = NULL;
        REQ( ig[w]->NewEntity( type, &p ) && p, "NewEntity() failed for type " << type );
        int i = track( type, p, w ); AEnt& e = m[i];
        auto R = [&]( double v ) { return Val::R( v, tolFor( v, 1e-8 ) ); };
        double z = i;
        switch( type )
        {
        case 110: { IGES_ENTITY_110* q = dynamic_cast<IGES_ENTITY_110*>( p ); q->X1 = z; q->Y1 = 1; q->Z1 = 0; q->X2 = z + 1; q->Y2 = 1; q->Z2 = 0; for( double v : { z, 1., 0., z + 1, 1., 0. } ) e.params.push_back( R( v ) ); break; }
        case 100: { IGES_ENTITY_100* q = dynamic_cast<IGES_ENTITY_100*>( p ); q->zOffset = 0; q->xCenter = z; q->yCenter = 0; q->xStart = q->xEnd = z + 2; q->yStart = q->yEnd = 0; for( double v : { 0., z, 0., z + 2, 0., z + 2, 0. } ) e.params.push_back( R( v ) ); break; }
        case 102: e.params = { Val::I( 0 ) }; break;
        case 120: { IGES_ENTITY_120* q = dynamic_cast<IGES_ENTITY_120*>( p ); q->SA = 0; q->TA = 1; e.params = { Val::P( -1 ), Val::P( -1 ), R( 0 ), R( 1 ) }; break; }
        case 122: { IGES_ENTITY_122* q = dynamic_cast<IGES_ENTITY_122*>( p ); q->LX = 1; q->LY = 2; q->LZ = 3; e.params = { Val::P( -1 ), R( 1 ), R( 2 ), R( 3 ) }; break; }
        case 124: { IGES_ENTITY_124* q = dynamic_cast<IGES_ENTITY_124*>( p ); q->T.T.x = z; for( int a = 0; a < 3; ++a ) for( int b = 0; b < 3; ++b ) q->T.R.v[a][b] = a == b; for( int a = 0; a < 3; ++a ) { for( int b = 0; b < 3; ++b ) e.params.push_back( R( a == b ) ); e.params.push_back( R( a == 0 ? z : 0 ) ); } break; }
        case 142: { IGES_ENTITY_142* q = dynamic_cast<IGES_ENTITY_142*>( p ); q->CRTN = 1; q->PREF = 3; e.params = { Val::I( 1 ), Val::P( -1 ), Val::P( -1 ), Val::P( -1 ), Val::I( 3 ) }; break; }
        case 144: e.params = { Val::P( -1 ), Val::I( 0 ), Val::I( 0 ), Val::P( -1 ) }; break;
        case 154: { IGES_ENTITY_154* q = dynamic_cast<IGES_ENTITY_154*>( p ); q->H = 1; q->R = 2; q->X1 = z; q->Y1 = q->Z1 = 0; q->I1 = q->J1 = 0; q->K1 = 1; for( double v : { 1., 2., z, 0., 0., 0., 0., 1. } ) e.params.push_back( R( v ) ); break; }
        case 164: { IGES_ENTITY_164* q = dynamic_cast<IGES_ENTITY_164*>( p ); q->L = 1; q->I1 = q->J1 = 0; q->K1 = 1; e.params = { Val::P( -1 ), R( 1 ), R( 0 ), R( 0 ), R( 1 ) }; break; }
        case 180: e.params = { Val::I( 0 ) }; break;
        case 308: { IGES_ENTITY_308* q = dynamic_cast<IGES_ENTITY_308*>( p ); q->NAME = strf( "S%d", i ); e.params = { Val::I( 0 ), Val::S( q->NAME ), Val::I( 0 ) }; e.use = 2; break; }
        case 314: { IGES_ENTITY_314* q = dynamic_cast<IGES_ENTITY_314*>( p ); q->red = 1; q->green = 2; q->blue = 3; q->cname = "n"; e.params = { R( 1 ), R( 2 ), R( 3 ), Val::S( "n" ) }; e.use = 2; e.color = 2; break; }
        case 406: { IGES_ENTITY_406* q = dynamic_cast<IGES_ENTITY_406*>( p ); REQ( q->SetData( "pr" ), "SetData() failed" ); e.form = 15; e.params = { Val::I( 1 ), Val::S( "pr" ) }; break; }
        case 408: { IGES_ENTITY_408* q = dynamic_cast<IGES_ENTITY_408*>( p ); q->X = z; q->Y = q->Z = 0; q->S = 1; e.params = { Val::P( -1 ), R( z ), R( 0 ), R( 0 ), R( 1 ) }; break; }
        default: FAILMSG( "harness: make" );
        }
        return i;
    }
    void initial()
    {
        GenOpts o; o.maxThings = s.range( 1, 4 ); o.res = 1e-8;
        std::vector<AEnt> g = genModel( s, o ); std::vector<IGES_ENTITY*> q;
        if( s.flip() ) shuffleModel( s, g );
        buildModel( *ig[0], g, q );
        for( size_t i = 0; i < g.size(); ++i ) { track( g[i].type, q[i], 0 ); g[i].dead = false; }
        m = g;
    }

    // ---- edits
    int anyAlive() { std::vector<int> v; for( size_t i = 0; i < m.size(); ++i ) if( alive[i] ) v.push_back( (int)i ); return v.empty() ? -1 : s.pick( v ); }
    int ofType( const std::vector<int>& t, int w = -1 )
    {
        std::vector<int> v;
        for( size_t i = 0; i < m.size(); ++i ) if( alive[i] && ( w < 0 || owner[i] == w ) && std::find( t.begin(), t.end(), m[i].type ) != t.end() ) v.push_back( (int)i );
        return v.empty() ? -1 : s.pick( v );
    }
    IGES_CURVE* curve( int i ) { return i < 0 ? NULL : dynamic_cast<IGES_CURVE*>( out[i] ); }

    // an edit which sets the single link 'slot' of p to ch (or to nothing)
    void settle( int p, int ch, bool ok, int& slot, bool typeOK, bool setsDep, IGES_ENTITY* now, const std::string& what, bool mayRefuse = false )
    {
        int old = slot;
        bool cyc = ch >= 0 && reaches( ch, p );
        slot = -1;
        bool dup = ch >= 0 && refers( p, ch );
        bool expect = ch < 0 || ( typeOK && !cyc && !dup );
        if( ok )
        {
            REQ( expect, what << " was accepted although it must be refused (" << ( !typeOK ? "wrong type" : cyc ? "circular" : "duplicate" ) << ")\n" << log );
            slot = ch;
            if( ch >= 0 && setsDep ) m[ch].dep = 1;
            if( ch >= 0 ) adopt( p, ch );
        }
        else
        {
            REQ( !expect || mayRefuse, what << " was refused although it is valid\n" << log );
            // nothing is linked; the link which was to be replaced may be kept or dropped
            slot = now && idx( now ) == old ? old : -1;
            if( slot < 0 ) REQ( !now, what << " was refused but the link is " << idx( now ) << "\n" << log );
        }
        if( old >= 0 && slot != old && m[p].type == 102 ) loose[p] = 1;
    }
    // linking a child moves it to the model of its parent
    void adopt( int p, int ch )
    {
        if( owner[ch] == owner[p] ) return;
        std::vector<int>& v = order[owner[ch]]; v.erase( std::remove( v.begin(), v.end(), ch ), v.end() );
        owner[ch] = owner[p]; order[owner[p]].push_back( ch );
    }
    // a child which can be linked to p without splitting a structure over two models
    int kidFor( int p, const std::vector<int>& types )
    {
        std::vector<int> v;
        for( size_t i = 0; i < m.size(); ++i )
            if( alive[i] && std::find( types.begin(), types.end(), m[i].type ) != types.end() && ( owner[i] == owner[p] || ( nrefs( (int)i ) == 0 && kids( (int)i ).empty() ) ) ) v.push_back( (int)i );
        return v.empty() ? -1 : s.pick( v );
    }
    static bool hasXform( int t ) { return t != 142 && t != 314 && t != 406; }
    static bool hasColor( int t ) { return t != 124 && t != 314 && t != 406; }

    void step()
    {
        static const std::vector<int> CURVES = { 100, 102, 104, 110, 126 }, SURF = { 128, 120, 122 }, SOLID = { 154, 164, 180 };
        static const std::vector<int> ALL = { 100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 154, 164, 180, 308, 314, 406, 408 };
        int op = s.draw( 26 );
        std::ostringstream d;
        auto say = [&]( const std::string& t ) { log += "  " + t + "\n"; };
        switch( op )
        {
        case 0: case 1: case 2:
        {
            int t = s.pick( std::vector<int>{ 110, 100, 102, 120, 122, 124, 142, 144, 154, 164, 180, 308, 314, 406, 408 } ), w = s.chance( 1, 5 ) ? 1 : 0;
            int i = make( t, w ); say( strf( "create %s in model %d", name( i ).c_str(), w ) ); c.label( "create" ); break;
        }
        case 3: case 4:
        {
            int p = anyAlive(); if( p < 0 || !hasXform( m[p].type ) ) break;
            int ch = s.chance( 1, 5 ) ? -1 : s.chance( 1, 8 ) ? kidFor( p, ALL ) : kidFor( p, { 124 } );
            say( strf( "SetTransform of #%d to %d", p, ch ) );
            bool ok = out[p]->SetTransform( ch < 0 ? NULL : out[ch] ); IGES_ENTITY* now = NULL; out[p]->GetTransform( &now );
            settle( p, ch, ok, m[p].xform, ch >= 0 && m[ch].type == 124, false, now, "SetTransform" ); c.label( "transform" ); break;
        }
        case 5: case 6:
        {
            int p = anyAlive(); if( p < 0 || !hasColor( m[p].type ) ) break;
            if( s.chance( 1, 4 ) ) { int v = s.range( 0, 8 ); say( strf( "SetColor of #%d to number %d", p, v ) ); REQ( out[p]->SetColor( (IGES_COLOR)v ), "SetColor() failed\n" << log ); m[p].colorEnt = -1; m[p].color = v; break; }
            int ch = s.chance( 1, 6 ) ? -1 : s.chance( 1, 8 ) ? kidFor( p, ALL ) : kidFor( p, { 314 } );
            say( strf( "SetColor of #%d to entity %d", p, ch ) );
            bool ok = out[p]->SetColor( ch < 0 ? (IGES_ENTITY*)NULL : out[ch] ); IGES_ENTITY* now = NULL; out[p]->GetColorEntity( &now );
            m[p].color = 0;
            settle( p, ch, ok, m[p].colorEnt, ch >= 0 && m[ch].type == 314, false, now, "SetColor" ); 
            if( !ok ) { IGES_COLOR col; if( out[p]->GetColor( col ) ) m[p].color = col; }
            c.label( "color" ); break;
        }
        case 7:
        {
            int p = anyAlive(); if( p < 0 || m[p].type == 406 ) break;
            if( s.flip() && m[p].props.size() )
            {
                int ch = s.pick( m[p].props ); say( strf( "DelOptionalEntity of #%d: %d", p, ch ) );
                REQ( out[p]->DelOptionalEntity( out[ch] ), "DelOptionalEntity() fails for an entity which is there\n" << log );
                m[p].props.erase( std::find( m[p].props.begin(), m[p].props.end(), ch ) ); c.label( "property removed" ); break;
            }
            int ch = s.chance( 1, 6 ) ? kidFor( p, ALL ) : kidFor( p, { 406 } ); if( ch < 0 ) break;
            say( strf( "AddOptionalEntity to #%d: %d", p, ch ) );
            bool ok = out[p]->AddOptionalEntity( out[ch] ), expect = m[ch].type == 406 && !refers( p, ch ) && !reaches( ch, p );
            REQ( ok == expect, "AddOptionalEntity() returned " << ok << "\n" << log );
            if( ok ) { m[p].props.push_back( ch ); adopt( p, ch ); }
            c.label( "property added" ); break;
        }
        case 8:
        {
            int p = ofType( { 102 } ); if( p < 0 ) break;
            int ch = s.chance( 1, 8 ) ? kidFor( p, { 102 } ) : kidFor( p, CURVES ); IGES_CURVE* cv = curve( ch );
            say( strf( "AddSegment to #%d: %d", p, ch ) );
            bool ok = dynamic_cast<IGES_ENTITY_102*>( out[p] )->AddSegment( cv );
            if( ch < 0 ) { REQ( !ok, "AddSegment( NULL ) accepted\n" << log ); break; }
            if( !ok ) break;
            REQ( m[ch].type != 102 && !reaches( ch, p ), "AddSegment() accepted an invalid curve\n" << log );
            if( !refers( p, ch ) ) { m[p].params.push_back( Val::P( ch ) ); m[ch].dep = 1; loose[p] = 1; adopt( p, ch ); }
            c.label( "segment" ); break;
        }
        case 9:
        {
            int p = ofType( { 120 } ); if( p < 0 ) break;
            int k = s.draw( 2 ), ch = s.chance( 1, 6 ) ? kidFor( p, CURVES ) : kidFor( p, k ? CURVES : std::vector<int>{ 110 } ); if( ch < 0 ) break;
            IGES_ENTITY_120* q = dynamic_cast<IGES_ENTITY_120*>( out[p] ); IGES_CURVE* now = NULL;
            say( strf( "Set%s of #%d: %d", k ? "C" : "L", p, ch ) );
            bool ok = k ? q->SetC( curve( ch ) ) : q->SetL( curve( ch ) );
            if( k ) q->GetC( &now ); else q->GetL( &now );
            int sl = (int)m[p].params[k].i; m[p].params[k].i = -1; int other = sl; (void)other;
            m[p].params[k].i = sl; setParam( p, k, ch, ok, k || m[ch].type == 110, now, k ? "SetC" : "SetL" ); c.label( "axis or generatrix" ); break;
        }
        case 10:
        {
            int p = ofType( { 122 } ); if( p < 0 ) break;
            int ch = kidFor( p, CURVES ); if( ch < 0 ) break;
            IGES_ENTITY_122* q = dynamic_cast<IGES_ENTITY_122*>( out[p] ); IGES_CURVE* now = NULL;
            say( strf( "SetDE of #%d: %d", p, ch ) );
            bool ok = q->SetDE( curve( ch ) ); q->GetDE( now );
            setParam( p, 0, ch, ok, true, now, "SetDE" ); c.label( "directrix" ); break;
        }
        case 11: case 12:
        {
            int p = ofType( { 142 } ); if( p < 0 ) break;
            int k = s.range( 1, 3 ), ch = s.chance( 1, 5 ) ? -1 : kidFor( p, k == 1 ? SURF : CURVES );
            IGES_ENTITY_142* q = dynamic_cast<IGES_ENTITY_142*>( out[p] ); IGES_ENTITY *x = ch < 0 ? NULL : out[ch], *now = NULL;
            say( strf( "Set%sPTR of #%d: %d", k == 1 ? "S" : k == 2 ? "B" : "C", p, ch ) );
            bool ok = k == 1 ? q->SetSPTR( x ) : k == 2 ? q->SetBPTR( x ) : q->SetCPTR( x );
            if( k == 1 ) q->GetSPTR( &now ); else if( k == 2 ) q->GetBPTR( &now ); else q->GetCPTR( &now );
            setParam( p, k, ch, ok, true, now, "SetxPTR" ); c.label( "curve on surface" ); break;
        }
        case 13: case 14:
        {
            int p = ofType( { 144 } ); if( p < 0 ) break;
            IGES_ENTITY_144* q = dynamic_cast<IGES_ENTITY_144*>( out[p] ); int k = s.draw( 4 );
            if( k == 0 )
            {
                int ch = s.chance( 1, 6 ) ? -1 : s.chance( 1, 6 ) ? kidFor( p, ALL ) : kidFor( p, SURF ); IGES_ENTITY* now = NULL;
                say( strf( "SetPTS of #%d: %d", p, ch ) );
                bool ok = q->SetPTS( ch < 0 ? NULL : out[ch] ); q->GetPTS( now );
                setParam( p, 0, ch, ok, ch >= 0 && std::find( SURF.begin(), SURF.end(), m[ch].type ) != SURF.end(), now, "SetPTS" );
            }
            else if( k == 1 )
            {
                int ch = s.chance( 1, 6 ) ? -1 : kidFor( p, { 142 } ); IGES_ENTITY_142* now = NULL;
                say( strf( "SetPTO of #%d: %d", p, ch ) );
                bool ok = q->SetPTO( ch < 0 ? NULL : dynamic_cast<IGES_ENTITY_142*>( out[ch] ) ); q->GetPTO( now );
                setParam( p, 3, ch, ok, true, now, "SetPTO" );
            }
            else if( k == 2 )
            {
                int ch = kidFor( p, { 142 } ); if( ch < 0 ) break;
                say( strf( "AddPTI to #%d: %d", p, ch ) );
                bool in = false; for( size_t j = 4; j < m[p].params.size(); ++j ) if( m[p].params[j].i == ch ) in = true;
                bool ok = q->AddPTI( dynamic_cast<IGES_ENTITY_142*>( out[ch] ) );
                if( in ) { REQ( ok, "adding an inner boundary again is refused\n" << log ); break; }
                REQ( ok == ( !refers( p, ch ) && !reaches( ch, p ) ), "AddPTI() returned " << ok << "\n" << log );
                if( ok ) { m[p].params.push_back( Val::P( ch ) ); m[ch].dep = 1; adopt( p, ch ); }
            }
            else
            {
                int ch = m[p].params.size() > 4 && !s.chance( 1, 5 ) ? (int)m[p].params[4 + s.draw( m[p].params.size() - 4 )].i : kidFor( p, { 142 } ); if( ch < 0 ) break;
                say( strf( "DelPTI of #%d: %d", p, ch ) );
                bool ok = q->DelPTI( dynamic_cast<IGES_ENTITY_142*>( out[ch] ) ), in = false;
                for( size_t j = 4; j < m[p].params.size(); ++j ) if( m[p].params[j].i == ch ) { in = true; m[p].params.erase( m[p].params.begin() + j ); break; }
                REQ( ok == in, "DelPTI() returned " << ok << "\n" << log );
            }
            c.label( "trimmed surface" ); break;
        }
        case 15:
        {
            int p = ofType( { 164 } ); if( p < 0 ) break;
            int ch = kidFor( p, s.flip() ? std::vector<int>{ 100 } : CURVES ); if( ch < 0 ) break;
            IGES_ENTITY_164* q = dynamic_cast<IGES_ENTITY_164*>( out[p] ); IGES_CURVE* now = NULL;
            say( strf( "SetClosedCurve of #%d: %d", p, ch ) );
            bool ok = q->SetClosedCurve( curve( ch ) ); q->GetClosedCurve( &now );
            setParam( p, 0, ch, ok, true, now, "SetClosedCurve", m[ch].type != 100 || m[ch].params[3].r != m[ch].params[5].r ); c.label( "extrusion" ); break;
        }
        case 16: case 17:
        {
            int p = ofType( { 180 } ); if( p < 0 ) break;
            IGES_ENTITY_180* q = dynamic_cast<IGES_ENTITY_180*>( out[p] ); int k = s.draw( 5 );
            if( k == 4 ) { say( strf( "ClearNodes of #%d", p ) ); q->ClearNodes(); m[p].params.resize( 1 ); loose[p] = 1; }
            else if( k == 3 )
            {
                int o = s.range( 1, 3 ); say( strf( "AddOp to #%d: %d", p, o ) );
                bool ok = q->AddOp( (BTREE_OPERATOR)o ); REQ( ok == ( m[p].params.size() > 2 ), "AddOp() returned " << ok << "\n" << log );
                if( ok ) { m[p].params.push_back( Val::I( o ) ); loose[p] = 1; }
            }
            else
            {
                int ch = s.chance( 1, 6 ) ? kidFor( p, ALL ) : kidFor( p, SOLID ); if( ch < 0 ) break;
                say( strf( "AddArg to #%d: %d", p, ch ) );
                bool ok = q->AddArg( out[ch] ), ty = std::find( SOLID.begin(), SOLID.end(), m[ch].type ) != SOLID.end();
                REQ( ok == ( ty && !refers( p, ch ) && !reaches( ch, p ) ), "AddArg() returned " << ok << "\n" << log );
                if( ok ) { m[p].params.push_back( Val::N( ch ) ); loose[p] = 1; adopt( p, ch ); }
            }
            c.label( "boolean tree" ); break;
        }
        case 18: case 19:
        {
            int p = ofType( { 308 } ); if( p < 0 ) break;
            IGES_ENTITY_308* q = dynamic_cast<IGES_ENTITY_308*>( out[p] );
            if( s.chance( 2, 5 ) )
            {
                int ch = m[p].params.size() > 3 && !s.chance( 1, 6 ) ? (int)m[p].params[3 + s.draw( m[p].params.size() - 3 )].i : anyAlive();
                say( strf( "DelDE of #%d: %d", p, ch ) );
                bool ok = q->DelDE( out[ch] ), in = false;
                for( size_t j = 3; j < m[p].params.size(); ++j ) if( m[p].params[j].i == ch ) { in = true; m[p].params.erase( m[p].params.begin() + j ); break; }
                REQ( ok == in, "DelDE() returned " << ok << "\n" << log );
            }
            else
            {
                int ch = kidFor( p, { 110, 100, 102, 104, 126, 128, 144, 154, 164, 180, 408 } ); if( ch < 0 ) break;
                say( strf( "AddDE to #%d: %d", p, ch ) );
                bool in = refers( p, ch ), ok = q->AddDE( out[ch] );
                if( in ) { REQ( ok, "adding a member again is refused\n" << log ); break; }
                REQ( ok == !reaches( ch, p ), "AddDE() returned " << ok << "\n" << log );
                if( ok ) { m[p].params.push_back( Val::P( ch ) ); m[ch].dep = 1; adopt( p, ch ); }
            }
            c.label( "subfigure members" ); break;
        }
        case 20:
        {
            int p = ofType( { 408 } ); if( p < 0 ) break;
            int ch = s.chance( 1, 6 ) ? -1 : kidFor( p, { 308 } ); IGES_ENTITY_308* now = NULL;
            say( strf( "SetDE of #%d: %d", p, ch ) );
            IGES_ENTITY_408* q = dynamic_cast<IGES_ENTITY_408*>( out[p] );
            bool ok = q->SetDE( ch < 0 ? NULL : dynamic_cast<IGES_ENTITY_308*>( out[ch] ) ); q->GetDE( now );
            setParam( p, 0, ch, ok, true, now, "SetDE", false, false ); c.label( "instance" ); break;
        }
        case 21: case 22:
        {   // attributes; links of the kinds which have no supported target are refused
            int p = ofType( { 100, 102, 104, 110, 120, 122, 126, 128, 144, 154, 164, 408 } ); if( p < 0 ) break;
            IGES_ENTITY* e = out[p]; int k = s.draw( 11 ); bool ok = true;
            switch( k )
            {
            case 0: { int v = s.range( 0, 5 ); say( strf( "SetLineFontPattern of #%d: %d", p, v ) ); ok = e->SetLineFontPattern( (IGES_LINEFONT_PATTERN)v ) == ( v >= 0 && v <= 5 ); if( v >= 0 && v <= 5 ) m[p].lfp = v; break; }
            case 1: { int v = s.pick( std::vector<int>{ 0, 1, 7, 9999999, -1 } ); say( strf( "SetLevel of #%d: %d", p, v ) ); ok = e->SetLevel( v ) == ( v >= 0 ); if( v >= 0 ) m[p].level = v; break; }
            case 2: { int v = s.range( -1, 1 ); say( strf( "SetLineWeightNum of #%d: %d", p, v ) ); ok = e->SetLineWeightNum( v ) == ( v >= 0 ); if( v >= 0 ) m[p].lw = v; break; }
            case 3: { bool v = s.flip(); say( strf( "SetVisibility of #%d: %d", p, v ) ); ok = e->SetVisibility( v ); m[p].blank = !v; break; }
            case 4: { int v = s.range( 0, 6 ); if( m[p].type == 144 || m[p].type == 154 || m[p].type == 164 ) break; say( strf( "SetEntityUse of #%d: %d", p, v ) ); ok = e->SetEntityUse( (IGES_STAT_USE)v ); m[p].use = v; break; }
            case 5: { int v = s.range( 0, 2 ); if( m[p].type != 102 && m[p].type != 408 ) break; say( strf( "SetHierarchy of #%d: %d", p, v ) ); ok = e->SetHierarchy( (IGES_STAT_HIER)v ); m[p].hier = v; break; }
            case 6: { std::string v = s.pick( std::vector<std::string>{ "", "A", "Label", "12345678", "AB CD" } ); say( strf( "SetLabel of #%d: %s", p, v.c_str() ) ); ok = e->SetLabel( v ); m[p].label = v; break; }
            case 7: { int v = s.pick( std::vector<int>{ 0, 1, 99999999, 100000000, -1 } ); say( strf( "SetEntitySubscript of #%d: %d", p, v ) ); bool in = v >= 0 && v < 100000000; ok = e->SetEntitySubscript( v ) == in; if( in ) m[p].subscript = v; break; }
            case 8: { int ch = s.chance( 1, 4 ) ? -1 : anyAlive(); say( strf( "SetLineFontPattern of #%d to entity %d", p, ch ) ); ok = e->SetLineFontPattern( ch < 0 ? (IGES_ENTITY*)NULL : out[ch] ) == ( ch < 0 ); m[p].lfp = 0; break; }
            case 9: { int ch = s.chance( 1, 4 ) ? -1 : anyAlive(); say( strf( "SetLevel of #%d to entity %d", p, ch ) ); ok = e->SetLevel( ch < 0 ? (IGES_ENTITY*)NULL : out[ch] ) == ( ch < 0 ); m[p].level = 0; break; }
            default: { int ch = s.chance( 1, 4 ) ? -1 : anyAlive(); bool v = s.flip(); say( strf( "Set%s of #%d to entity %d", v ? "View" : "LabelAssoc", p, ch ) ); IGES_ENTITY* x = ch < 0 ? (IGES_ENTITY*)NULL : out[ch]; ok = ( v ? e->SetView( x ) : e->SetLabelAssoc( x ) ) == ( ch < 0 ); break; }
            }
            REQ( ok, "unexpected result of the last step\n" << log );
            c.label( "attribute" ); break;
        }
        case 23:
        {
            int i = anyAlive(); if( i < 0 ) break;
            bool other = s.chance( 1, 8 );
            if( s.chance( 1, 10 ) ) { REQ( !ig[0]->DelEntity( NULL ) && !ig[0]->AddEntity( NULL ) && !ig[0]->UnlinkEntity( NULL ), "a null pointer is accepted as an entity\n" << log ); }
            say( strf( "DelEntity %s%s", name( i ).c_str(), other ? " of the other model" : "" ) );
            bool ok = ig[owner[i] ^ ( other ? 1 : 0 )]->DelEntity( out[i] );
            REQ( ok == !other, "DelEntity() returned " << ok << "\n" << log );
            if( ok ) gone( i );
            c.label( "delete" ); break;
        }
        case 24:
        {
            int w = s.chance( 1, 6 ) ? 1 : 0; if( order[w].empty() ) break;
            if( s.chance( 1, 8 ) )
            {
                // vicious: at least what is unreferenced now goes, at most what no surviving instance needs
                std::set<int> must; for( int i : order[w] ) if( nrefs( i ) == 0 && m[i].type != 408 ) must.insert( i );
                say( strf( "Cull(true) of model %d", w ) ); ig[w]->Cull( true );
                std::vector<int> o = order[w];
                for( int i : o ) if( !*flag[i] ) gone( i );
                for( int i : must ) REQ( !alive[i], "Cull( true ) left " << name( i ) << ", which nothing referred to\n" << log );
                for( int i : order[w] ) REQ( !orphan( i ), "Cull( true ) left the orphan " << name( i ) << "\n" << log );
                c.label( "cull, vicious" );
                break;
            }
            say( strf( "Cull of model %d", w ) ); ig[w]->Cull( false ); int n = cullModel( w ); c.label( n ? "cull with effect" : "cull without effect" ); break;
        }
        default:
            if( s.flip() )      // hand an entity without any relations to the other model
            {
                std::vector<int> v; for( size_t i = 0; i < m.size(); ++i ) if( alive[i] && kids( (int)i ).empty() && nrefs( (int)i ) == 0 ) v.push_back( (int)i );
                if( v.empty() ) break;
                int i = s.pick( v ), w = 1 - owner[i]; say( strf( "AddEntity of %s to model %d", name( i ).c_str(), w ) );
                REQ( ig[w]->AddEntity( out[i] ), "AddEntity() failed\n" << log );
                order[1 - w].erase( std::find( order[1 - w].begin(), order[1 - w].end(), i ) ); order[w].push_back( i ); owner[i] = w;
                c.label( "hand over" ); break;
            }
            else { int w = s.chance( 1, 4 ) ? 1 : 0; save( w ); }
            break;
        }
    }
    void setParam( int p, int k, int ch, bool ok, bool typeOK, IGES_ENTITY* now, const char* what, bool mayRefuse = false, bool dep = true )
    {
        int slot = (int)m[p].params[k].i, tmp = slot;
        m[p].params[k].i = -1;                  // so that the old link does not count as a duplicate
        settle2( p, ch, ok, tmp, typeOK, dep, now, what, mayRefuse );
        m[p].params[k].i = tmp;
    }
    void settle2( int p, int ch, bool ok, int& slot, bool typeOK, bool dep, IGES_ENTITY* now, const std::string& what, bool mayRefuse )
    {
        settle( p, ch, ok, slot, typeOK, dep, now, what, mayRefuse );
    }
    void save( int w )
    {
        log += strf( "  Write of model %d\n", w ); c.label( "save" );
        std::string f = c.path( "h.igs" );
        bool ok = ig[w]->Write( f.c_str(), true );
        cullModel( w );
        bool may = false; for( int i : order[w] ) if( loose[i] || m[i].type == 164 ) may = true;
        for( int i : order[w] ) if( m[i].type == 180 && m[i].params.size() < 4 ) may = true;
        if( order[w].empty() ) { REQ( !ok, "an empty model was saved\n" << log ); return; }
        // the preference is adapted to the only curve there is
        for( int i : order[w] ) if( m[i].type == 142 )
        {
            long f = m[i].params[2].i < 0 ? 2 : m[i].params[3].i < 0 ? 1 : 0; int now = dynamic_cast<IGES_ENTITY_142*>( out[i] )->PREF;
            if( f && ( ok || now == f ) ) m[i].params[4] = Val::I( f );
        }
        REQ( ok || may, "Write() failed\n" << log );
        if( !ok ) return;
        c.label( "saved and compared" );
        std::vector<AEnt> x; std::vector<int> pos( m.size(), -1 );
        for( size_t k = 0; k < order[w].size(); ++k ) pos[order[w][k]] = (int)k;
        std::map<int, int> depth;
        std::function<int( int )> dl = [&]( int i ) -> int {
            if( m[i].type == 408 ) return dl( (int)m[i].params[0].i );
            if( m[i].type != 308 ) return -1;
            if( depth.count( i ) ) return depth[i];
            int r = 0; for( size_t k = 3; k < m[i].params.size(); ++k ) r = std::max( r, dl( (int)m[i].params[k].i ) + 1 );
            return depth[i] = r;
        };
        for( int i : order[w] )
        {
            AEnt e = m[i];
            auto fx = [&]( int& p ) { if( p >= 0 ) { REQ( pos[p] >= 0, "harness: link across models" ); p = pos[p]; } };
            fx( e.xform ); fx( e.colorEnt ); for( int& p : e.props ) fx( p );
            for( auto& v : e.params ) if( ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i >= 0 ) v.i = pos[v.i];
            if( e.type == 102 || e.type == 180 ) e.params[0] = Val::I( (long)e.params.size() - 1 );
            if( e.type == 308 ) { e.params[0] = Val::I( dl( i ) ); e.params[2] = Val::I( (long)e.params.size() - 3 ); }
            if( e.type == 144 ) { e.params[1] = Val::I( e.params[3].i >= 0 ); e.params[2] = Val::I( (long)e.params.size() - 4 ); }
            x.push_back( e );
        }
        PDoc d; parseIges( readFile( f ), d );
        REQ( d.problems.empty(), "saved file is malformed: " << d.problems[0] << "\n" << log );
        std::string r = compareDoc( x, d );
        REQ( r.empty(), "saved file (numbers are positions in the model) differs: " << r << "\n" << log );
    }
    void run()
    {
        if( s.chance( 3, 4 ) ) initial();
        c.desc = describe( m );
        check( "at the start" );
        int n = s.range( 1, 30 );
        for( int k = 0; k < n; ++k ) { step(); check( strf( "after step %d", k + 1 ) ); }
        c.nontrivial = n >= 5 && m.size() >= 4;
        c.desc += log;
        if( s.flip() ) save( 0 );
        // destroy everything, in any order
        int first = s.draw( 2 );
        for( int k = 0; k < 2; ++k )
        {
            int w = first ^ k;
            delete ig[w];
            for( size_t i = 0; i < m.size(); ++i )
                if( alive[i] && owner[i] == w ) REQ( !*flag[i], name( (int)i ) << " outlives its model\n" << log );
                else if( alive[i] && k == 0 ) REQ( *flag[i], name( (int)i ) << " was destroyed with the other model\n" << log );
        }
        for( bool* f : flag ) delete f;
    }
};

void histories( Src& s, Ctx& c ) { Hist h( s, c ); h.run(); }
// models which were loaded from a file, boundary representations included: deletion in any order
void loaded( Src& s, Ctx& c )
{
    GenOpts o; o.foreign = true; o.brep = true; o.maxThings = s.range( 1, 4 ); o.res = 1e-6;
    std::vector<AEnt> m = genModel( s, o );
    if( s.flip() ) shuffleModel( s, m );
    int n = (int)m.size();
    GlobalVals g; g.minRes = o.res;
    // a subfigure which lists every entity makes all of them accessible
    AEnt d; d.type = 308; d.use = 2; d.params = { Val::I( 0 ), Val::S( "ALL" ), Val::I( n ) }; for( int i = 0; i < n; ++i ) d.params.push_back( Val::P( i ) ); m.push_back( d );
    AEnt q; q.type = 408; q.params = { Val::P( n ), Val::R( 0, 0 ), Val::R( 0, 0 ), Val::R( 0, 0 ), Val::R( 1, 0 ) }; m.push_back( q );
    std::string f = c.path( "l.igs" ), t = writeIges( {}, g, m, s, false ), log; writeFile( f, t );
    c.desc = describe( m );
    IGES *a = new IGES, *b = new IGES; IGES_ENTITY_308* top = NULL;
    REQ( a->Read( f.c_str() ), "a valid file is rejected" );
    REQ( a->Export( b, &top ) && top, "Export() failed" );
    size_t k = 0; IGES_ENTITY** l = NULL; std::vector<IGES_ENTITY*> e;
    REQ( top->GetDEList( k, l ), "the exported subfigure is empty" );
    for( size_t i = 0; i < k && e.empty(); ++i )
    {
        IGES_ENTITY_308* x = NULL; IGES_ENTITY_408* in = dynamic_cast<IGES_ENTITY_408*>( l[i] ); size_t k2 = 0; IGES_ENTITY** l2 = NULL;
        if( in && in->GetDE( x ) && x && x->GetDEList( k2, l2 ) && (int)k2 == n && x->NAME == "ALL" ) { e.assign( l2, l2 + k2 ); e.push_back( x ); e.push_back( in ); }
    }
    REQ( (int)e.size() == n + 2, "the instance of all entities is lost in the export" );
    e.push_back( top );
    delete a;
    std::vector<bool*> fl; for( size_t i = 0; i < e.size(); ++i ) { fl.push_back( new bool( true ) ); e[i]->AttachValidFlag( fl[i] ); if( (int)i < n ) REQ( e[i]->GetEntityType() == m[i].type, "a subfigure refers to an entity of another type" ); }
    int steps = s.range( 1, n + 3 );
    c.nontrivial = n >= 5;
    for( int st = 0; st < steps; ++st )
    {
        std::vector<int> v; for( size_t i = 0; i < e.size(); ++i ) if( *fl[i] ) v.push_back( (int)i );
        if( v.empty() ) break;
        if( s.chance( 1, 12 ) ) { b->Cull( s.chance( 1, 4 ) ); log += "  Cull\n"; c.label( "cull" ); }
        else if( s.chance( 1, 12 ) )
        {
            log += "  Write\n"; std::string w = c.path( "w.igs" );
            if( b->Write( w.c_str(), true ) ) { PDoc x; parseIges( readFile( w ), x ); REQ( x.problems.empty(), "saved file is malformed: " << x.problems[0] << "\n" << log ); c.label( "saved" ); }
        }
        else
        {
            int x = s.pick( v ); log += strf( "  DelEntity #%d(%d)\n", x, e[x]->GetEntityType() ); c.label( strf( "deleted type %d", e[x]->GetEntityType() ) );
            std::vector<char> was; for( bool* p : fl ) was.push_back( *p );
            REQ( b->DelEntity( e[x] ), "DelEntity() failed\n" << log );
            for( size_t i = 0; i < e.size(); ++i ) REQ( *fl[i] == ( was[i] && (int)i != x ), "entity " << i << ( *fl[i] ? " still exists\n" : " was destroyed along with another one\n" ) << log );
        }
        std::set<IGES_ENTITY*> live; for( size_t i = 0; i < e.size(); ++i ) if( *fl[i] ) live.insert( e[i] );
        for( IGES_ENTITY* p : live )
        {
            std::set<IGES_ENTITY*> seen; walkEntity( p, seen, 199 );
            for( IGES_ENTITY* r : seen ) REQ( live.count( r ), "an entity of type " << p->GetEntityType() << " refers to one which does not exist\n" << log );
            REQ( p->getNRefs() < live.size(), "an entity of type " << p->GetEntityType() << " knows of more parents than there are entities\n" << log );
        }
    }
    c.desc += log;
    delete b;
    for( size_t i = 0; i < e.size(); ++i ) REQ( !*fl[i], "an entity outlives its model" );
    for( bool* p : fl ) delete p;
}

// boundary representations which were loaded from a file, changed through the API and saved again
void solids( Src& s, Ctx& c )
{
    GenOpts o; o.foreign = true; o.brep = true; o.subfig = false; o.maxThings = s.range( 1, 3 ); o.res = 1e-6;
    std::vector<AEnt> m;
    bool found = false;
    for( int t = 0; t < 12 && !found; ++t ) { m = genModel( s, o ); for( AEnt& e : m ) found |= e.type == 502 && !e.dead; }
    if( !found ) { c.label( "no solid" ); return; }
    { std::vector<AEnt> k; std::vector<int> pos( m.size(), -1 ); for( size_t i = 0; i < m.size(); ++i ) if( !m[i].dead ) { pos[i] = (int)k.size(); k.push_back( m[i] ); }
      auto fx = [&]( int& p ) { if( p >= 0 ) p = pos[p]; };
      for( AEnt& e : k ) { fx( e.xform ); fx( e.colorEnt ); fx( e.structEnt ); fx( e.viewEnt ); fx( e.lassocEnt ); fx( e.levelEnt ); fx( e.lfpEnt ); for( int& p : e.props ) fx( p ); for( int& p : e.assoc ) fx( p ); for( Val& v : e.params ) if( ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i >= 0 ) v.i = pos[v.i]; }
      m = k; }
    if( s.flip() ) shuffleModel( s, m );
    int n = (int)m.size();
    GlobalVals g; g.minRes = o.res;
    // a subfigure which lists every entity makes all of them accessible
    AEnt d; d.type = 308; d.use = 2; d.params = { Val::I( 0 ), Val::S( "ALL" ), Val::I( n ) }; for( int i = 0; i < n; ++i ) d.params.push_back( Val::P( i ) ); 
    AEnt q; q.type = 408; q.params = { Val::P( n ), Val::R( 0, 0 ), Val::R( 0, 0 ), Val::R( 0, 0 ), Val::R( 1, 0 ) };
    std::vector<AEnt> fm = m; fm.push_back( d ); fm.push_back( q );
    std::string f = c.path( "l.igs" ), log; writeFile( f, writeIges( {}, g, fm, s, false ) );
    c.desc = describe( fm );
    IGES *a = new IGES, *b = new IGES; IGES_ENTITY_308* top = NULL;
    REQ( a->Read( f.c_str() ), "a valid file is rejected" );
    REQ( a->Export( b, &top ) && top, "Export() failed" );
    size_t k = 0; IGES_ENTITY** l = NULL; std::vector<IGES_ENTITY*> e;
    REQ( top->GetDEList( k, l ) && k == 1, "the exported subfigure does not list the only instance" );
    IGES_ENTITY_308* all = NULL; IGES_ENTITY_408* in = dynamic_cast<IGES_ENTITY_408*>( l[0] );
    size_t k2 = 0; IGES_ENTITY** l2 = NULL;
    REQ( in && in->GetDE( all ) && all && all->NAME == "ALL" && all->GetDEList( k2, l2 ) && (int)k2 == n, "the instance of all entities is lost in the export" );
    e.assign( l2, l2 + k2 );
    delete a;
    for( int i = 0; i < n; ++i ) REQ( e[i]->GetEntityType() == m[i].type, "a subfigure refers to an entity of another type" );
    // the expected content: [ top, instance, m..., ALL ] and what is created below
    std::vector<AEnt> x; std::vector<IGES_ENTITY*> x2;
    { AEnt t; t.type = 308; t.use = 2; t.params = { Val::I( 1 ), Val::S( top->NAME ), Val::I( 1 ), Val::P( 1 ) }; x.push_back( t ); x2.push_back( top ); }
    q.params[0].i = n + 2; q.dep = 1; x.push_back( q ); x2.push_back( in );
    auto shift = [&]( AEnt y ) {
        auto fx = [&]( int& p ) { if( p >= 0 ) p += 2; };
        fx( y.xform ); fx( y.colorEnt ); fx( y.structEnt ); fx( y.viewEnt ); fx( y.lassocEnt ); fx( y.levelEnt ); fx( y.lfpEnt );
        for( int& p : y.props ) fx( p );
        for( Val& v : y.params ) if( ( v.k == Val::PTR || v.k == Val::NPTR ) ) { int p = (int)v.i; fx( p ); v.i = p; }
        y.assoc.clear(); return y; };
    for( int i = 0; i < n; ++i ) { x.push_back( shift( m[i] ) ); x2.push_back( e[i] ); }
    x.push_back( shift( d ) ); x2.push_back( all );
    int base = (int)x.size(), seq = 0;      // entities from here on were created below
    bool cut = false;
    // an entity disappears: whatever was described with it goes from the entities which referred to it
    auto drop = [&]( int ch ) {
        x[ch].dead = true;
        auto isP = [&]( const Val& v ) { return ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i == ch; };
        for( size_t i = 0; i < x.size(); ++i )
        {
            AEnt& y = x[i]; if( y.dead ) continue;
            std::vector<Val>& P = y.params; std::vector<Val> r;
            switch( y.type )
            {
            case 308: for( size_t k = 0; k < P.size(); ++k ) if( k < 3 || !isP( P[k] ) ) r.push_back( P[k] ); r[2].i = (long)r.size() - 3; P = r; break;
            case 504: if( P.empty() ) break; r.push_back( P[0] ); r[0].i = 0;
                for( size_t k = 1; k + 4 < P.size(); k += 5 ) if( !isP( P[k] ) && !isP( P[k + 1] ) && !isP( P[k + 3] ) ) { r.insert( r.end(), P.begin() + k, P.begin() + k + 5 ); r[0].i++; } P = r; break;
            case 508: if( P.empty() ) break; r.push_back( P[0] ); r[0].i = 0;
                for( size_t k = 1; k < P.size(); ) { size_t e2 = k + 5 + 2 * P[k + 4].i; bool hit = isP( P[k + 1] ); for( size_t j = k + 5; j < e2; j += 2 ) hit |= isP( P[j + 1] ); if( !hit ) { r.insert( r.end(), P.begin() + k, P.begin() + e2 ); r[0].i++; } k = e2; } P = r; break;
            case 510: if( isP( P[0] ) ) P[0].i = -1; for( size_t k = 0; k < P.size(); ++k ) if( k < 3 || !isP( P[k] ) ) r.push_back( P[k] ); r[1].i = (long)r.size() - 3; P = r; break;
            case 514: r.push_back( P[0] ); for( size_t k = 1; k + 1 < P.size(); k += 2 ) if( !isP( P[k] ) ) { r.push_back( P[k] ); r.push_back( P[k + 1] ); } r[0].i = (long)( r.size() - 1 ) / 2; P = r; break;
            case 186: for( size_t k = 0; k < 3; ++k ) r.push_back( P[k] ); if( isP( r[0] ) ) r[0].i = -1; for( size_t k = 3; k + 1 < P.size(); k += 2 ) if( !isP( P[k] ) ) { r.push_back( P[k] ); r.push_back( P[k + 1] ); } r[2].i = (long)( r.size() - 3 ) / 2; P = r; break;
            default: for( Val& v : P ) if( isP( v ) ) FAILMSG( "harness: a part is in use by type " << y.type );
            }
        }
    };
    auto save = [&]( const char* when ) {
        std::string w = c.path( strf( "w%d.igs", ++seq ) );
        // what nobody refers to is dropped when it exists only for its referers
        for( bool again = true; again; )
        {
            again = false;
            std::vector<int> refs( x.size(), 0 );
            for( AEnt& y : x ) if( !y.dead ) { if( y.xform >= 0 ) refs[y.xform]++; if( y.colorEnt >= 0 ) refs[y.colorEnt]++; for( Val& v : y.params ) if( ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i >= 0 ) refs[v.i]++; for( int p : y.props ) refs[p]++; }
            for( size_t i = 2; i < x.size() && !again; ++i )
            {
                AEnt& y = x[i]; if( y.dead ) continue;
                bool inc = ( y.type == 504 || y.type == 508 || y.type == 502 || y.type == 514 ) && y.params.size() < 2; inc |= y.type == 510 && ( y.params[0].i < 0 || y.params.size() < 4 ); inc |= y.type == 186 && y.params[0].i < 0;
                if( inc || ( refs[i] == 0 && (int)i >= base && ( y.type >= 500 || y.dep != 0 ) ) ) { drop( (int)i ); again = true; }
            }
        }
        REQ( b->Write( w.c_str(), true ), "Write() fails " << when << "\n" << log );
        PDoc doc; parseIges( readFile( w ), doc ); REQ( doc.problems.empty(), "the saved file is malformed " << when << ": " << doc.problems[0] << "\n" << log );
        for( size_t i = 0; i < x.size(); ++i ) if( x[i].dead ) x2[i] = NULL;
        std::string r = compareDoc( x, doc );
        REQ( r.empty(), "the saved file (numbers are positions in the model) is wrong " << when << ": " << r << "\n" << log );
    };
    save( "before any change" );
    auto fresh = [&]( int type ) {
        IGES_ENTITY* p = NULL; REQ( b->NewEntity( type, &p ) && p, "NewEntity() failed for type " << type << "\n" << log );
        AEnt y; y.type = type; x.push_back( y ); x2.push_back( p ); return (int)x.size() - 1; };
    auto line = [&]() {
        int i = fresh( 110 ); IGES_ENTITY_110* p = (IGES_ENTITY_110*)x2[i]; double v[6];
        for( double& t : v ) { t = s.real( 100 ); x[i].params.push_back( Val::R( t, tolFor( t, 1e-6 ) ) ); }
        p->X1 = v[0]; p->Y1 = v[1]; p->Z1 = v[2]; p->X2 = v[3]; p->Y2 = v[4]; p->Z2 = v[5]; return i; };
    auto any = [&]( const std::vector<int>& types ) { std::vector<int> v; for( size_t i = 0; i < x.size(); ++i ) if( x2[i] && ( types.empty() || std::find( types.begin(), types.end(), x[i].type ) != types.end() ) ) v.push_back( (int)i ); return v.empty() ? -1 : s.pick( v ); };
    auto refers = [&]( int p, int ch ) { for( Val& v : x[p].params ) if( ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i == ch ) return true; return false; };
    int steps = s.range( 1, 14 ), edits = 0;
    for( int st = 0; st < steps; ++st )
    {
        int op = s.draw( 13 );
        switch( op )
        {
        case 0: case 1:     // a vertex more
        {
            int p = any( { 502 } ); if( p < 0 ) break;
            IGES_ENTITY_502* v = dynamic_cast<IGES_ENTITY_502*>( x2[p] ); MCAD_POINT pt; pt.x = s.real( 100 ); pt.y = s.real( 100 ); pt.z = s.real( 100 );
            log += strf( "  AddVertex to #%d\n", p );
            size_t was = v->GetNVertices(); v->AddVertex( pt );
            if( x[p].params.empty() ) x[p].params.push_back( Val::I( 0 ) );
            x[p].params[0].i++; for( double t : { pt.x, pt.y, pt.z } ) x[p].params.push_back( Val::R( t, tolFor( t, 1e-6 ) ) );
            size_t nn = 0; MCAD_POINT const* vl = NULL;
            REQ( v->GetNVertices() == was + 1 && v->GetVertices( nn, vl ) && nn == was + 1 && vl[nn - 1].x == pt.x && vl[nn - 1].y == pt.y && vl[nn - 1].z == pt.z, "the list of vertices is wrong\n" << log );
            ++edits; c.label( "vertex" ); break;
        }
        case 2: case 3: case 4:     // an edge more
        {
            int p = any( { 504 } ), v1 = s.chance( 1, 12 ) ? -1 : any( { 502 } ), v2 = s.chance( 1, 12 ) ? -1 : s.flip() ? v1 : any( { 502 } ); if( p < 0 ) break;
            int cv = s.chance( 1, 12 ) ? -1 : s.chance( 1, 4 ) ? any( {} ) : s.flip() ? any( { 110, 100, 126, 102, 104 } ) : line();
            int n1 = v1 < 0 ? 1 : (int)( (IGES_ENTITY_502*)x2[v1] )->GetNVertices(), n2 = v2 < 0 ? 1 : (int)( (IGES_ENTITY_502*)x2[v2] )->GetNVertices();
            int i1 = s.chance( 1, 8 ) ? s.pick( std::vector<int>{ 0, -1, n1 + 1 } ) : s.range( 1, std::max( 1, n1 ) ), i2 = s.chance( 1, 8 ) ? s.pick( std::vector<int>{ 0, -1, n2 + 1 } ) : s.range( 1, std::max( 1, n2 ) );
            static const std::vector<int> CT = { 100, 102, 104, 110, 112, 126, 130 };
            bool ok = v1 >= 0 && v2 >= 0 && cv >= 0 && std::find( CT.begin(), CT.end(), x[cv].type ) != CT.end() && !refers( p, cv ) && i1 >= 1 && i1 <= n1 && i2 >= 1 && i2 <= n2;
            log += strf( "  AddEdge to #%d: curve %d from %d of #%d to %d of #%d\n", p, cv, i1, v1, i2, v2 );
            IGES_ENTITY_504* el = dynamic_cast<IGES_ENTITY_504*>( x2[p] );
            bool r = el->AddEdge( cv < 0 ? NULL : x2[cv], v1 < 0 ? NULL : (IGES_ENTITY_502*)x2[v1], i1, v2 < 0 ? NULL : (IGES_ENTITY_502*)x2[v2], i2 );
            REQ( r == ok, "the edge was " << ( r ? "accepted\n" : "refused\n" ) << log );
            if( r )
            {
                if( x[p].params.empty() ) x[p].params.push_back( Val::I( 0 ) );
                x[p].params[0].i++; for( Val v : { Val::P( cv ), Val::P( v1 ), Val::I( i1 ), Val::P( v2 ), Val::I( i2 ) } ) x[p].params.push_back( v );
                ++edits; c.label( "edge" );
            }
            else c.label( "edge refused" );
            size_t nn = 0; EDGE_DATA const* ed = NULL; bool has = el->GetEdges( nn, ed );
            int want = x[p].params.empty() ? 0 : (int)x[p].params[0].i;
            REQ( has == ( want > 0 ) && ( !has || (int)nn == want ), "the list of edges has " << nn << " members, expected " << want << "\n" << log );
            for( int t = 0; t < want; ++t ) REQ( ed[t].curv == x2[x[p].params[1 + 5 * t].i] && ed[t].svp == x2[x[p].params[2 + 5 * t].i] && ed[t].sv == x[p].params[3 + 5 * t].i && ed[t].tvp == x2[x[p].params[4 + 5 * t].i] && ed[t].tv == x[p].params[5 + 5 * t].i, "member " << t << " of the list of edges is wrong\n" << log );
            break;
        }
        case 5: case 6: case 7:     // an edge more along a loop
        {
            int p = any( { 508 } ); if( p < 0 ) break;
            bool vert = s.chance( 1, 3 ); int da = s.chance( 1, 10 ) ? -1 : s.chance( 1, 10 ) ? any( {} ) : vert ? any( { 502 } ) : any( { 504 } );
            if( da >= 0 && x[da].params.empty() ) break;        // not worth saving, neither is what needs it
            std::vector<std::pair<bool, int>> pc; int np = s.range( 0, 2 );
            for( int t = 0; t < np; ++t ) pc.push_back( { s.flip(), s.chance( 1, 12 ) ? -1 : s.chance( 1, 10 ) ? any( { 502, 504 } ) : s.flip() ? any( { 110, 126 } ) : line() } );
            int ix = s.range( 1, 9 ); bool orient = s.flip();
            bool ok = da >= 0 && x[da].type == ( vert ? 502 : 504 ); std::set<int> once;
            for( auto& t : pc ) ok = ok && t.second >= 0 && x[t.second].type != 502 && x[t.second].type != 504 && !refers( p, t.second ) && once.insert( t.second ).second;
            LOOP_DATA* ld = new LOOP_DATA; ld->isVertex = vert; ld->data = da < 0 ? NULL : x2[da]; ld->idx = ix; ld->orientFlag = orient;
            log += strf( "  AddEdge to loop #%d: %s #%d index %d, curves", p, vert ? "vertex" : "edge", da, ix );
            for( auto& t : pc ) { ld->pcurves.push_back( new LOOP_PAIR( t.first, t.second < 0 ? NULL : x2[t.second] ) ); log += strf( " %d", t.second ); }
            log += "\n";
            IGES_ENTITY_508* lp = dynamic_cast<IGES_ENTITY_508*>( x2[p] );
            bool r = lp->AddEdge( ld );
            REQ( r == ok, "the edge was " << ( r ? "accepted\n" : "refused\n" ) << log );
            if( r )
            {
                if( x[p].params.empty() ) x[p].params.push_back( Val::I( 0 ) );
                x[p].params[0].i++; for( Val v : { Val::I( vert ), Val::P( da ), Val::I( ix ), Val::I( orient ), Val::I( (long)pc.size() ) } ) x[p].params.push_back( v );
                for( auto& t : pc ) { x[p].params.push_back( Val::I( t.first ) ); x[p].params.push_back( Val::P( t.second ) ); }
                ++edits; c.label( "loop edge" );
            }
            else { for( LOOP_PAIR* t : ld->pcurves ) delete t; delete ld; c.label( "loop edge refused" ); }
            size_t nn = 0; LOOP_DATA** ll = NULL; bool has = lp->GetLoopData( nn, ll ); int want = x[p].params.empty() ? 0 : (int)x[p].params[0].i;
            REQ( has == ( want > 0 ) && ( !has || (int)nn == want ), "the loop has " << nn << " edges, expected " << want << "\n" << log );
            if( r ) { size_t npc = 0; LOOP_PAIR** pl = NULL; bool hp = ll[nn - 1]->GetPCurves( npc, pl ); REQ( hp == !pc.empty() && ( !hp || npc == pc.size() ), "the new edge of the loop has " << npc << " curves\n" << log ); }
            break;
        }
        case 8:     // a face gets another bound
        {
            int p = any( { 510 } ), lp = s.chance( 1, 10 ) ? -1 : any( { 508 } ); if( p < 0 ) break;
            bool ok = lp >= 0 && !refers( p, lp ) && !x[lp].params.empty();
            if( lp >= 0 && x[lp].params.empty() ) break;        // would leave a face without a valid loop
            log += strf( "  AddBound to #%d: %d\n", p, lp );
            IGES_ENTITY_510* fc = dynamic_cast<IGES_ENTITY_510*>( x2[p] );
            bool r = fc->AddBound( lp < 0 ? NULL : (IGES_ENTITY_508*)x2[lp] );
            REQ( r == ok, "the bound was " << ( r ? "accepted\n" : "refused\n" ) << log );
            if( r ) { x[p].params[1].i++; x[p].params.push_back( Val::P( lp ) ); ++edits; c.label( "bound" ); }
            size_t nn = 0; IGES_ENTITY_508** bl = NULL; bool has = fc->GetBounds( nn, bl ); int want = (int)x[p].params[1].i;
            REQ( has == ( want > 0 ) && ( !has || (int)nn == want ), "the face has " << nn << " bounds, expected " << want << "\n" << log );
            for( int t = 0; t < want; ++t ) REQ( bl[t] == x2[x[p].params[3 + t].i], "bound " << t << " is wrong\n" << log );
            break;
        }
        case 9:     // surface and flag of a face
        {
            int p = any( { 510 } ); if( p < 0 ) break;
            IGES_ENTITY_510* fc = dynamic_cast<IGES_ENTITY_510*>( x2[p] );
            if( s.flip() ) { bool v = s.flip(); log += strf( "  SetOuterLoopFlag of #%d to %d\n", p, v ); fc->SetOuterLoopFlag( v ); x[p].params[2].i = v; REQ( fc->GetOuterLoopFlag() == v, "SetOuterLoopFlag() has no effect\n" << log ); ++edits; break; }
            int su = s.chance( 1, 10 ) ? -1 : s.chance( 1, 6 ) ? any( {} ) : any( { 120, 122, 128 } );
            static const std::vector<int> ST = { 114, 120, 122, 128, 140, 190, 192, 194, 196, 198 };
            bool ok = su >= 0 && std::find( ST.begin(), ST.end(), x[su].type ) != ST.end();
            log += strf( "  SetSurface of #%d to %d\n", p, su );
            bool r = fc->SetSurface( su < 0 ? NULL : x2[su] );
            REQ( r == ok, "the surface was " << ( r ? "accepted\n" : "refused\n" ) << log );
            if( r ) { x[p].params[0].i = su; ++edits; c.label( "surface" ); }
            REQ( fc->GetSurface() == ( x[p].params[0].i < 0 ? NULL : x2[x[p].params[0].i] ), "the surface of the face is wrong\n" << log );
            break;
        }
        case 10:    // new parts
        {
            int t = s.pick( std::vector<int>{ 502, 504, 508, 510 } ), i = fresh( t ); AEnt& y = x[i];
            y.form = t == 508 ? x2[i]->GetEntityForm() : 1; y.dep = 1; IGES_STAT_HIER h; x2[i]->GetHierarchy( h ); y.hier = h;
            REQ( x2[i]->GetEntityForm() == y.form && y.form >= 0 && y.form <= 1, "the form of a new entity is wrong\n" << log );
            if( t == 510 ) y.params = { Val::P( -1 ), Val::I( 0 ), Val::I( ( (IGES_ENTITY_510*)x2[i] )->GetOuterLoopFlag() ) };
            log += strf( "  new #%d(%d)\n", i, t ); c.label( "new part" ); break;
        }
        case 12:    // a part is deleted
        {
            if( s.flip() ) break;
            int p = any( { 502, 504, 508, 510, 514, 110, 126, 128, 120, 122 } ); if( p < 0 ) break;
            static const std::vector<int> BREP = { 308, 504, 508, 510, 514, 186 };
            bool fit = true; for( size_t i = 0; i < x.size(); ++i ) if( x2[i] && refers( (int)i, p ) && std::find( BREP.begin(), BREP.end(), x[i].type ) == BREP.end() ) fit = false;
            if( !fit ) break;
            log += strf( "  DelEntity #%d(%d)\n", p, x[p].type );
            REQ( b->DelEntity( x2[p] ), "DelEntity() failed\n" << log );
            x2[p] = NULL; drop( p ); cut = true; ++edits; c.label( strf( "deleted type %d", x[p].type ) ); break;
        }
        case 11:    // fields which the standard leaves open or closed for these entities
        {
            int p = any( { 502, 504, 508, 510, 514 } ); if( p < 0 ) break; int t = x[p].type; bool r, ok; const char* what = "";
            switch( s.draw( 9 ) )
            {
            case 0: { what = "SetColor"; ok = t == 508; int v = s.range( 0, 8 ); r = x2[p]->SetColor( (IGES_COLOR)v ); if( r ) { x[p].color = v; x[p].colorEnt = -1; } break; }
            case 1: { what = "SetLineWeightNum"; ok = t == 508; r = x2[p]->SetLineWeightNum( 1 ); if( r ) x[p].lw = 1; break; }
            case 2: { what = "SetLineFontPattern"; ok = t == 508; int v = s.range( 0, 5 ); r = x2[p]->SetLineFontPattern( (IGES_LINEFONT_PATTERN)v ); if( r ) x[p].lfp = v; break; }
            case 3: { what = "SetDependency"; int v = s.draw( 4 ); ok = t == 514 || v == 1; r = x2[p]->SetDependency( (IGES_STAT_DEPENDS)v ); if( r ) x[p].dep = v; break; }
            case 4: { what = "SetEntityForm"; int v = s.range( -1, 3 ); ok = t == 514 ? v == 1 : t == 508 ? v == 0 || v == 1 : v == 1; if( t == 514 )
            {
                bool used = false; for( size_t i = 0; i < x.size(); ++i ) used |= x2[i] && x[i].type == 186 && refers( (int)i, p );
                if( v == 2 && used ) { ok = r = true; break; }      // the shell of a solid is closed
                ok |= v == 2;
            }
            r = x2[p]->SetEntityForm( v ); if( r && t == 514 ) x[p].form = v; break; }
            case 5: { what = "SetVisibility"; ok = true; bool v = s.flip(); r = x2[p]->SetVisibility( v ); x[p].blank = !v; break; }
            case 6: { what = "SetLevel"; ok = true; int v = s.range( 0, 99 ); r = x2[p]->SetLevel( v ); x[p].level = v; break; }
            case 7: { what = "SetTransform"; int ch = any( { 124 } ); ok = false; if( ch < 0 ) { r = false; break; } r = x2[p]->SetTransform( x2[ch] ); break; }
            default: { what = "SetHierarchy"; ok = true; int v = s.draw( 3 ); r = x2[p]->SetHierarchy( (IGES_STAT_HIER)v ); if( t >= 508 ) x[p].hier = v; break; }
            }
            log += strf( "  %s of #%d\n", what, p );
            REQ( r == ok, what << ( r ? " was accepted\n" : " was refused\n" ) << log ); c.label( "field" ); break;
        }
        }
        if( s.chance( 1, 8 ) ) { log += "  save\n"; save( "in between" ); c.label( "saved in between" ); }
    }
    c.nontrivial = edits >= 2;
    c.desc += log;
    save( "at the end" );
    // what was saved can be read again; after a deletion indices may lead nowhere
    if( !cut ) { IGES y; std::string w = c.path( strf( "w%d.igs", seq ) ); REQ( y.Read( w.c_str() ), "the saved file is not readable\n" << log ); std::string z = c.path( "z.igs" ); REQ( y.Write( z.c_str(), true ), "the reread model cannot be saved\n" << log );
      PDoc doc; parseIges( readFile( z ), doc ); std::string r = compareDoc( x, doc ); REQ( r.empty(), "the reread model differs: " << r << "\n" << log ); }
    delete b;
}
PROPERTY( "C05", "solids", "two or more changes of a boundary representation", 4000, 300000, solids );
PROPERTY( "C05", "loaded", "loaded model of 5 or more entities", 10000, 600000, loaded );
PROPERTY( "C05", "histories", "history of 5 or more edits over 4 or more entities", 60000, 1500000, histories );
}
