#include "exercise.h"
#include <unistd.h>

void walkEntity( IGES_ENTITY* e, std::set<IGES_ENTITY*>& seen, int depth )
{
    if( !e || seen.count( e ) ) return;
    seen.insert( e );
    if( depth > 200 ) return;
    volatile int sink = 0;
    sink += e->GetEntityForm();
    IGES_ENTITY* p = NULL; int n; bool b; std::string lb;
    if( e->GetTransform( &p ) ) walkEntity( p, seen, depth + 1 );
    IGES_COLOR col; e->GetColor( col );
    if( e->GetColorEntity( &p ) ) walkEntity( p, seen, depth + 1 );
    IGES_LINEFONT_PATTERN lp; e->GetLineFontPattern( lp ); e->GetLineFontPatternEntity( &p );
    e->GetLevel( n ); e->GetLevelEntity( &p ); e->GetView( &p ); e->GetLabelAssoc( &p ); e->GetStructure( &p );
    e->GetLineWeightNum( n ); e->GetLabel( lb ); e->GetEntitySubscript( n ); e->GetVisibility( b );
    IGES_STAT_DEPENDS sd; e->GetDependency( sd ); IGES_STAT_USE su; e->GetEntityUse( su ); IGES_STAT_HIER sh; e->GetHierarchy( sh );
    for( int i = -1; i <= e->GetNOptionalEntities(); ++i ) walkEntity( e->GetOptionalEntity( i ), seen, depth + 1 );
    { size_t k; IGES_ENTITY** l = NULL; if( e->GetOptionalEntities( k, l ) ) for( size_t i = 0; i < k; ++i ) walkEntity( l[i], seen, depth + 1 ); }
    { size_t k; char const** l = NULL; if( e->GetComments( k, l ) ) for( size_t i = 0; i < k; ++i ) sink += (int)std::string( l[i] ).size(); }
    for( int i = -1; i <= e->GetNComments(); ++i ) { const char* c = e->GetComment( i ); if( c ) sink += *c; }
    if( IGES_CURVE* c = dynamic_cast<IGES_CURVE*>( e ) )
    {
        MCAD_POINT pt;
        c->IsClosed(); int nc = c->GetNCurves(); c->GetNSegments();
        c->GetStartPoint( pt, true ); c->GetEndPoint( pt, true ); c->GetStartPoint( pt, false ); c->GetEndPoint( pt, false );
        for( int i = -1; i <= nc && i < 50; ++i ) walkEntity( c->GetCurve( i ), seen, depth + 1 );
    }
    switch( e->GetEntityType() )
    {
    case 120: { IGES_ENTITY_120* q = dynamic_cast<IGES_ENTITY_120*>( e ); IGES_CURVE* c = NULL; if( q && q->GetL( &c ) ) walkEntity( c, seen, depth + 1 ); c = NULL; if( q && q->GetC( &c ) ) walkEntity( c, seen, depth + 1 ); break; }
    case 122: { IGES_ENTITY_122* q = dynamic_cast<IGES_ENTITY_122*>( e ); IGES_CURVE* c = NULL; if( q && q->GetDE( c ) ) walkEntity( c, seen, depth + 1 ); break; }
    case 124: { IGES_ENTITY_124* q = dynamic_cast<IGES_ENTITY_124*>( e ); if( q ) q->GetTransformMatrix(); break; }
    case 126:
        if( IGES_ENTITY_126* q = dynamic_cast<IGES_ENTITY_126*>( e ) )
        {
            int nc, o; double *k = NULL, *co = NULL, v0, v1; bool r, cl, pe; MCAD_POINT nn;
            if( q->GetNURBSData( nc, o, &k, &co, r, cl, pe, v0, v1 ) && k && co )
            { volatile double s = 0; for( int i = 0; i < nc + o; ++i ) s += k[i]; for( int i = 0; i < nc * ( r ? 4 : 3 ); ++i ) s += co[i]; }
            q->IsPlanar(); q->IsRational(); q->isPeriodic(); q->GetNormal( nn );
        }
        break;
    case 128:
        if( IGES_ENTITY_128* q = dynamic_cast<IGES_ENTITY_128*>( e ) )
        {
            int n1, n2, o1, o2; double *k1 = NULL, *k2 = NULL, *co = NULL, u0, u1, v0, v1; bool r, p1, p2;
            bool c1, c2;
            if( q->GetNURBSData( n1, n2, o1, o2, &k1, &k2, &co, r, c1, c2, p1, p2, u0, u1, v0, v1 ) && k1 && k2 && co )
            { volatile double s = 0; for( int i = 0; i < n1 + o1; ++i ) s += k1[i]; for( int i = 0; i < n2 + o2; ++i ) s += k2[i]; for( int i = 0; i < n1 * n2 * ( r ? 4 : 3 ); ++i ) s += co[i]; }
            q->IsRational(); q->isClosed1(); q->isClosed2(); q->isPeriodic1(); q->isPeriodic2();
        }
        break;
    case 142: if( IGES_ENTITY_142* q = dynamic_cast<IGES_ENTITY_142*>( e ) ) { p = NULL; if( q->GetSPTR( &p ) ) walkEntity( p, seen, depth + 1 ); p = NULL; if( q->GetBPTR( &p ) ) walkEntity( p, seen, depth + 1 ); p = NULL; if( q->GetCPTR( &p ) ) walkEntity( p, seen, depth + 1 ); } break;
    case 144:
        if( IGES_ENTITY_144* q = dynamic_cast<IGES_ENTITY_144*>( e ) )
        {
            p = NULL; if( q->GetPTS( p ) ) walkEntity( p, seen, depth + 1 );
            IGES_ENTITY_142* o = NULL; if( q->GetPTO( o ) ) walkEntity( o, seen, depth + 1 );
            size_t k; IGES_ENTITY_142** l = NULL; if( q->GetPTIList( k, l ) ) for( size_t i = 0; i < k; ++i ) walkEntity( l[i], seen, depth + 1 );
            for( int i = -1; i <= q->GetNPTI(); ++i ) walkEntity( q->GetPTI( i ), seen, depth + 1 );
        }
        break;
    case 164: if( IGES_ENTITY_164* q = dynamic_cast<IGES_ENTITY_164*>( e ) ) { IGES_CURVE* c = NULL; if( q->GetClosedCurve( &c ) ) walkEntity( c, seen, depth + 1 ); } break;
    case 180: if( IGES_ENTITY_180* q = dynamic_cast<IGES_ENTITY_180*>( e ) ) for( int i = -1; i <= q->GetNNodes(); ++i ) { BTREE_NODE* nd = q->GetNode( i ); if( nd && !nd->op ) walkEntity( nd->pEnt, seen, depth + 1 ); } break;
    case 308: if( IGES_ENTITY_308* q = dynamic_cast<IGES_ENTITY_308*>( e ) ) { size_t k; IGES_ENTITY** l = NULL; if( q->GetDEList( k, l ) ) for( size_t i = 0; i < k; ++i ) walkEntity( l[i], seen, depth + 1 ); } break;
    case 408: if( IGES_ENTITY_408* q = dynamic_cast<IGES_ENTITY_408*>( e ) ) { IGES_ENTITY_308* d = NULL; if( q->GetDE( d ) ) walkEntity( d, seen, depth + 1 ); } break;
    case 502: if( IGES_ENTITY_502* q = dynamic_cast<IGES_ENTITY_502*>( e ) ) { size_t k; const MCAD_POINT* l = NULL; volatile double s = 0; if( q->GetVertices( k, l ) ) for( size_t i = 0; i < k; ++i ) s += l[i].x; } break;
    case 504: if( IGES_ENTITY_504* q = dynamic_cast<IGES_ENTITY_504*>( e ) ) { size_t k; const EDGE_DATA* l = NULL; if( q->GetEdges( k, l ) ) for( size_t i = 0; i < k; ++i ) { walkEntity( l[i].curv, seen, depth + 1 ); walkEntity( l[i].svp, seen, depth + 1 ); walkEntity( l[i].tvp, seen, depth + 1 ); } } break;
    case 508: if( IGES_ENTITY_508* q = dynamic_cast<IGES_ENTITY_508*>( e ) ) { size_t k; LOOP_DATA** l = NULL; if( q->GetLoopData( k, l ) ) for( size_t i = 0; i < k; ++i ) walkEntity( l[i]->data, seen, depth + 1 ); } break;
    case 510: if( IGES_ENTITY_510* q = dynamic_cast<IGES_ENTITY_510*>( e ) ) { walkEntity( q->GetSurface(), seen, depth + 1 ); size_t k; IGES_ENTITY_508** l = NULL; if( q->GetBounds( k, l ) ) for( size_t i = 0; i < k; ++i ) walkEntity( l[i], seen, depth + 1 ); } break;
    default: break;
    }
}

void exerciseModel( IGES& ig, const std::string& out, unsigned which, unsigned unit )
{
    static const IGES_UNIT U[] = { UNIT_INCH, UNIT_MILLIMETER, UNIT_FOOT, UNIT_MILE, UNIT_METER, UNIT_KILOMETER, UNIT_MIL, UNIT_MICRON, UNIT_CENTIMETER, UNIT_MICROINCH };
    if( which & EX_HEADERS ) { size_t n; char const** h = NULL; volatile size_t s = 0; if( ig.GetHeaders( n, h ) ) for( size_t i = 0; i < n; ++i ) s += std::string( h[i] ).size(); ig.GetNHeaderLines(); ig.GetUnitName(); }
    if( which & EX_UNITS ) ig.ConvertUnits( U[unit % 10] );
    if( which & EX_SCALE ) ig.ChangeModelScale( 2.5 );
    if( which & EX_CULL ) ig.Cull( false );
    if( which & EX_COMPACT ) ig.Compact();
    if( which & EX_WRITE )
    {
        bool ok = ig.Write( out.c_str(), true );
        if( ok && ( which & EX_REREAD ) ) { IGES r; if( r.Read( out.c_str() ) ) r.Write( out.c_str(), true ); }
    }
    if( which & EX_EXPORT )
    {
        IGES nw; IGES_ENTITY_308* d = NULL;
        if( ig.Export( &nw, &d ) && d )
        {
            std::set<IGES_ENTITY*> seen; walkEntity( d, seen, 0 );
            IGES_ENTITY* e = NULL;
            if( nw.NewEntity( 408, &e ) ) { IGES_ENTITY_408* q = dynamic_cast<IGES_ENTITY_408*>( e ); q->SetDE( d ); }
            nw.ConvertUnits( U[( unit + 3 ) % 10] );
            nw.Write( out.c_str(), true );
            if( which & EX_COMPACT ) nw.Compact();
            if( which & EX_PICK ) nw.DelEntity( d );
        }
    }
    if( which & EX_VICIOUS ) ig.Cull( true );
}
