#include "model.h"
#include <geom/mcad_elements.h>

// C11: points, matrices and transformations; integer operands make every result exact
namespace
{
typedef double V3[3];
struct RP { double v[3]; };
struct RM { double v[3][3]; };
struct RT { RM r; RP t; };
RP mulv( const RM& m, const RP& p ) { RP o; for( int i = 0; i < 3; ++i ) { o.v[i] = 0; for( int k = 0; k < 3; ++k ) o.v[i] += m.v[i][k] * p.v[k]; } return o; }
RM mulm( const RM& a, const RM& b ) { RM o; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) { o.v[i][j] = 0; for( int k = 0; k < 3; ++k ) o.v[i][j] += a.v[i][k] * b.v[k][j]; } return o; }
RP addp( const RP& a, const RP& b, double f = 1 ) { RP o; for( int i = 0; i < 3; ++i ) o.v[i] = a.v[i] + f * b.v[i]; return o; }
RM addm( const RM& a, const RM& b, double f = 1 ) { RM o; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) o.v[i][j] = a.v[i][j] + f * b.v[i][j]; return o; }
RM sclm( const RM& a, double f ) { RM o; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) o.v[i][j] = f * a.v[i][j]; return o; }
RP sclp( const RP& a, double f ) { RP o; for( int i = 0; i < 3; ++i ) o.v[i] = f * a.v[i]; return o; }
RT mult( const RT& a, const RT& b ) { RT o; o.r = mulm( a.r, b.r ); o.t = addp( mulv( a.r, b.t ), a.t ); return o; }

bool eq( const MCAD_POINT& a, const RP& b ) { return a.x == b.v[0] && a.y == b.v[1] && a.z == b.v[2]; }
bool eq( const MCAD_MATRIX& a, const RM& b ) { for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) if( a.v[i][j] != b.v[i][j] ) return false; return true; }
bool eq( const MCAD_TRANSFORM& a, const RT& b ) { return eq( a.R, b.r ) && eq( a.T, b.t ); }
bool small( const RP& p ) { for( double d : p.v ) if( fabs( d ) > 1e6 ) return false; return true; }
bool small( const RM& p ) { for( auto& r : p.v ) for( double d : r ) if( fabs( d ) > 1e6 ) return false; return true; }

void algebra( Src& s, Ctx& c )
{
    const int N = 3;
    MCAD_POINT p[N]; RP rp[N]; MCAD_MATRIX m[N]; RM rm[N]; MCAD_TRANSFORM t[N]; RT rt[N];
    auto I = [&]() { return (double)s.range( -4, 4 ); };
    for( int i = 0; i < N; ++i )
    {
        REQ( eq( p[i], RP{ { 0, 0, 0 } } ) && eq( m[i], RM{ { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } } } ) && eq( t[i].T, RP{ { 0, 0, 0 } } ) && eq( t[i].R, RM{ { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } } } ), "a default object is not the origin or the identity" );
        rp[i] = RP{ { I(), I(), I() } }; p[i] = MCAD_POINT( rp[i].v[0], rp[i].v[1], rp[i].v[2] );
        for( int a = 0; a < 3; ++a ) for( int b = 0; b < 3; ++b ) m[i].v[a][b] = rm[i].v[a][b] = I();
        rt[i].r = rm[i]; rt[i].t = RP{ { I(), I(), I() } }; t[i] = MCAD_TRANSFORM( m[i], MCAD_POINT( rt[i].t.v[0], rt[i].t.v[1], rt[i].t.v[2] ) );
    }
    int n = s.range( 2, 12 ); std::string log;
    for( int k = 0; k < n; ++k )
    {
        int a = s.range( 0, N - 1 ), b = s.range( 0, N - 1 ), o = s.range( 0, N - 1 ), op = s.range( 0, 22 ); double f = s.range( -3, 3 );
        log += strf( "op %d a %d b %d o %d f %g\n", op, a, b, o, f );
        RP np = rp[o]; RM nm = rm[o]; RT nt = rt[o];
        // the reference
        switch( op )
        {
        case 0: case 1: case 2: np = sclp( rp[op == 0 ? o : a], f ); break;
        case 3: np = addp( rp[o], rp[a] ); break;
        case 4: np = addp( rp[a], rp[b] ); break;
        case 5: np = addp( rp[o], rp[a], -1 ); break;
        case 6: np = addp( rp[a], rp[b], -1 ); break;
        case 7: case 8: case 9: nm = sclm( rm[op == 7 ? o : a], f ); break;
        case 10: nm = mulm( rm[o], rm[a] ); break;
        case 11: nm = mulm( rm[a], rm[b] ); break;
        case 12: nm = addm( rm[o], rm[a] ); break;
        case 13: nm = addm( rm[a], rm[b] ); break;
        case 14: nm = addm( rm[o], rm[a], -1 ); break;
        case 15: nm = addm( rm[a], rm[b], -1 ); break;
        case 16: np = mulv( rm[a], rp[b] ); break;
        case 17: nt = mult( rt[o], rt[a] ); break;
        case 18: nt = mult( rt[a], rt[b] ); break;
        case 19: nt.r = sclm( rt[o].r, f ); nt.t = sclp( rt[o].t, f ); break;
        case 20: nt.r = sclm( rt[a].r, f ); nt.t = sclp( rt[a].t, f ); break;
        case 21: np = addp( mulv( rt[a].r, rp[b] ), rt[a].t ); break;
        case 22: nt.r = rm[a]; nt.t = rp[b]; break;
        }
        if( !small( np ) || !small( nm ) || !small( nt.r ) || !small( nt.t ) ) continue;
        rp[o] = np; rm[o] = nm; rt[o] = nt;
        switch( op )
        {
        case 0: p[o] *= f; break;
        case 1: p[o] = p[a] * f; break;
        case 2: p[o] = f * p[a]; break;
        case 3: p[o] += p[a]; break;
        case 4: p[o] = p[a] + p[b]; break;
        case 5: p[o] -= p[a]; break;
        case 6: p[o] = p[a] - p[b]; break;
        case 7: m[o] *= f; break;
        case 8: m[o] = m[a] * f; break;
        case 9: m[o] = f * m[a]; break;
        case 10: m[o] *= m[a]; break;
        case 11: m[o] = m[a] * m[b]; break;
        case 12: m[o] += m[a]; break;
        case 13: m[o] = m[a] + m[b]; break;
        case 14: m[o] -= m[a]; break;
        case 15: m[o] = m[a] - m[b]; break;
        case 16: p[o] = m[a] * p[b]; break;
        case 17: t[o] *= t[a]; break;
        case 18: t[o] = t[a] * t[b]; break;
        case 19: t[o] *= f; break;
        case 20: t[o] = f * t[a]; break;
        case 21: p[o] = t[a] * p[b]; break;
        case 22: t[o] = MCAD_TRANSFORM( m[a], p[b] ); break;
        }
        for( int i = 0; i < N; ++i )
        {
            REQ( eq( p[i], rp[i] ), "point " << i << " is " << p[i].x << ", " << p[i].y << ", " << p[i].z << ", expected " << rp[i].v[0] << ", " << rp[i].v[1] << ", " << rp[i].v[2] << " after\n" << log );
            REQ( eq( m[i], rm[i] ), "matrix " << i << " is wrong after\n" << log );
            REQ( eq( t[i], rt[i] ), "transformation " << i << " is wrong after\n" << log );
            MCAD_POINT cp( p[i] ); MCAD_MATRIX cm( m[i] ); MCAD_TRANSFORM ct( t[i] );
            REQ( eq( cp, rp[i] ) && eq( cm, rm[i] ) && eq( ct, rt[i] ), "a copy differs from the original after\n" << log );
        }
    }
    c.desc = log; c.nontrivial = n >= 4;
}
PROPERTY( "C11", "algebra", "four or more operations", 1500000, 30000000, algebra );

// chains of transformation entities
void chains( Src& s, Ctx& c )
{
    IGES ig; int n = s.range( 1, 6 );
    std::vector<IGES_ENTITY_124*> t; std::vector<RT> r; std::vector<int> up( n, -1 );
    auto I = [&]() { return (double)s.range( -3, 3 ); };
    auto total = [&]( int i ) { RT o = r[i]; for( int k = up[i]; k >= 0; k = up[k] ) o = mult( r[k], o ); return o; };
    for( int i = 0; i < n; ++i )
    {
        IGES_ENTITY* e = NULL; REQ( ig.NewEntity( ENT_TRANSFORMATION_MATRIX, &e ) && e, "NewEntity" );
        t.push_back( dynamic_cast<IGES_ENTITY_124*>( e ) ); RT x;
        for( int a = 0; a < 3; ++a ) { for( int b = 0; b < 3; ++b ) t[i]->T.R.v[a][b] = x.r.v[a][b] = I(); x.t.v[a] = I(); }
        t[i]->T.T = MCAD_POINT( x.t.v[0], x.t.v[1], x.t.v[2] ); r.push_back( x );
    }
    IGES_ENTITY* le = NULL; REQ( ig.NewEntity( ENT_LINE, &le ) && le, "NewEntity" );
    auto l = dynamic_cast<IGES_ENTITY_110*>( le ); int on = -1;
    RP q{ { I(), I(), I() } }; l->X1 = q.v[0]; l->Y1 = q.v[1]; l->Z1 = q.v[2];
    int steps = s.range( 1, 8 ); int linked = 0;
    for( int k = 0; k < steps; ++k )
    {
        int i = s.range( 0, n - 1 ), j = s.range( -1, n - 1 );
        if( s.chance( 1, 3 ) )
        {
            if( on >= 0 ) { REQ( l->SetTransform( NULL ), "SetTransform( NULL )" ); on = -1; c.desc += "line free\n"; }
            else { REQ( l->SetTransform( t[i] ), "SetTransform()" ); on = i; c.desc += strf( "line in %d\n", i ); ++linked; }
        }
        else if( j < i )        // links lead to earlier entities so that there are no cycles
        {
            if( up[i] >= 0 ) { REQ( t[i]->SetTransform( NULL ), "SetTransform( NULL )" ); up[i] = -1; }
            if( j >= 0 ) { REQ( t[i]->SetTransform( t[j] ), "SetTransform()" ); up[i] = j; ++linked; }
            c.desc += strf( "%d in %d\n", i, j );
        }
        for( int a = 0; a < n; ++a ) REQ( eq( t[a]->GetTransformMatrix(), total( a ) ), "GetTransformMatrix() of entity " << a << " does not combine the chain\n" << c.desc );
        MCAD_POINT p; REQ( l->GetStartPoint( p, true ), "GetStartPoint()" );
        RP w = q; if( on >= 0 ) { RT x = total( on ); w = addp( mulv( x.r, q ), x.t ); }
        REQ( eq( p, w ), "transformed point is " << p.x << ", " << p.y << ", " << p.z << ", expected " << w.v[0] << ", " << w.v[1] << ", " << w.v[2] << "\n" << c.desc );
        REQ( l->GetStartPoint( p, false ) && eq( p, q ), "untransformed point\n" << c.desc );
    }
    c.nontrivial = linked >= 2;
}
PROPERTY( "C11", "chains", "two or more links made", 500000, 10000000, chains );
}
