#include "model.h"
#include <memory>
#include <limits>
#include <cstring>
#include <geom/mcad_elements.h>

// C10: what curves and surfaces report about themselves
namespace
{
typedef long double ld;
struct P { ld x, y, z; P( ld a = 0, ld b = 0, ld c = 0 ) : x( a ), y( b ), z( c ) {} };
P operator-( P a, P b ) { return P( a.x - b.x, a.y - b.y, a.z - b.z ); }
P operator+( P a, P b ) { return P( a.x + b.x, a.y + b.y, a.z + b.z ); }
P operator*( ld k, P a ) { return P( k * a.x, k * a.y, k * a.z ); }
ld dot( P a, P b ) { return a.x * b.x + a.y * b.y + a.z * b.z; }
P cross( P a, P b ) { return P( a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x ); }
ld len( P a ) { return sqrtl( dot( a, a ) ); }
struct X { ld r[3][3]; P t; };
P app( const X& x, P p ) { return P( x.r[0][0] * p.x + x.r[0][1] * p.y + x.r[0][2] * p.z + x.t.x, x.r[1][0] * p.x + x.r[1][1] * p.y + x.r[1][2] * p.z + x.t.y, x.r[2][0] * p.x + x.r[2][1] * p.y + x.r[2][2] * p.z + x.t.z ); }

struct Nurbs { int n = 0, order = 0; std::vector<double> k, c; bool rat = false; double v0 = 0, v1 = 0; };
// de Boor on homogeneous coordinates
P eval( const Nurbs& q, double t, bool fromLeft )
{
    int d = q.order - 1, m = d;
    for( int i = d; i < q.n; ++i ) if( fromLeft ? q.k[i] < t : q.k[i] <= t ) { if( q.k[i + 1] > q.k[i] ) m = i; }
    int st = q.rat ? 4 : 3;
    std::vector<std::vector<ld>> b( q.order, std::vector<ld>( 4 ) );
    for( int j = 0; j <= d; ++j )
    {
        const double* c = &q.c[( m - d + j ) * st]; ld w = q.rat ? c[3] : 1;
        b[j] = { c[0] * w, c[1] * w, c[2] * w, w };
    }
    for( int r = 1; r <= d; ++r ) for( int j = d; j >= r; --j )
    {
        ld a = ( (ld)t - q.k[j + m - d] ) / ( (ld)q.k[j + 1 + m - r] - q.k[j + m - d] );
        for( int x = 0; x < 4; ++x ) b[j][x] = ( 1 - a ) * b[j - 1][x] + a * b[j][x];
    }
    return P( b[d][0] / b[d][3], b[d][1] / b[d][3], b[d][2] / b[d][3] );
}
// 1: a unique plane, 0: none (a line, or not planar), -1: cannot be told
int planar( const Nurbs& q, P& nrm )
{
    int st = q.rat ? 4 : 3; std::vector<P> p;
    for( int i = 0; i < q.n; ++i ) p.push_back( P( q.c[i * st], q.c[i * st + 1], q.c[i * st + 2] ) );
    ld size = 0, area = 0; P n;
    for( auto& a : p ) for( auto& b : p ) size = std::max( size, len( a - b ) );
    for( size_t i = 0; i < p.size(); ++i ) for( size_t j = i + 1; j < p.size(); ++j ) for( size_t k = j + 1; k < p.size(); ++k )
    { P x = cross( p[j] - p[i], p[k] - p[i] ); if( len( x ) > area ) { area = len( x ); n = x; } }
    if( size == 0 || area <= 1e-12L * size * size ) return 0;
    if( area < 1e-4L * size * size ) return -1;
    nrm = ( 1 / area ) * n;
    ld dev = 0; for( auto& a : p ) dev = std::max( dev, fabsl( dot( nrm, a - p[0] ) ) );
    if( dev <= 1e-12L * size ) return 1;
    return dev > 1e-4L * size ? 0 : -1;
}

struct Cv
{
    int type = 0; std::vector<double> d; Nurbs q; int closed = -1;      // closed: 1 yes, 0 no, -1 not claimed
    std::vector<X> xf;                                                  // innermost first
    std::vector<int> parts;                                             // of a composite
    bool moved = false;                                                 // a part of a composite has a transform of its own
    IGES_ENTITY* e = NULL;
};

struct Gen
{
    Src& s; std::vector<Cv> v; double res;
    explicit Gen( Src& q, double r ) : s( q ), res( r ) {}
    double c() { return s.grid( -500, 500, 0.001 ); }
    X xform()
    {
        X x; ld a = s.range( 0, 628 ) * 0.01L, b = s.range( 0, 314 ) * 0.01L, g = s.range( 0, 628 ) * 0.01L;
        if( s.chance( 1, 4 ) ) { a = s.range( 0, 3 ) * M_PIl / 2; b = g = 0; }
        ld A[3][3] = { { cosl( a ), -sinl( a ), 0 }, { sinl( a ), cosl( a ), 0 }, { 0, 0, 1 } }, B[3][3] = { { cosl( b ), 0, sinl( b ) }, { 0, 1, 0 }, { -sinl( b ), 0, cosl( b ) } }, G[3][3] = { { cosl( g ), -sinl( g ), 0 }, { sinl( g ), cosl( g ), 0 }, { 0, 0, 1 } };
        ld T[3][3]; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) { T[i][j] = 0; for( int k = 0; k < 3; ++k ) T[i][j] += A[i][k] * B[k][j]; }
        for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) { x.r[i][j] = 0; for( int k = 0; k < 3; ++k ) x.r[i][j] += T[i][k] * G[k][j]; x.r[i][j] = (double)x.r[i][j]; }
        x.t = P( c(), c(), c() );
        return x;
    }
    void xfs( Cv& k ) { int n = (int)s.weighted( { 3, 2, 1, 1 } ); while( n-- ) k.xf.push_back( xform() ); }
    // from (x,y) to (u,w) in the plane z
    Cv seg( double x, double y, double u, double w, double z, bool allowConic )
    {
        Cv k;
        switch( s.range( 0, allowConic ? 2 : 1 ) )
        {
        case 0: k.type = 110; k.d = { x, y, z, u, w, z }; k.closed = 0; break;
        case 1:
        {
            k.type = 126; k.closed = -1; Nurbs& q = k.q;
            q.order = s.range( 2, 5 ); q.n = q.order + s.range( 0, 4 ); q.rat = s.flip();
            int inner = q.n - q.order; double sc = s.pick( std::vector<double>{ 1, 10, 0.5 } );
            for( int i = 0; i < q.order; ++i ) q.k.push_back( 0 );
            for( int i = 1; i <= inner; ++i ) q.k.push_back( sc * i / ( inner + 1.0 ) );
            for( int i = 0; i < q.order; ++i ) q.k.push_back( sc );
            for( int i = 0; i < q.n; ++i )
            {
                q.c.push_back( i == 0 ? x : i + 1 == q.n ? u : c() ); q.c.push_back( i == 0 ? y : i + 1 == q.n ? w : c() ); q.c.push_back( i == 0 || i + 1 == q.n || s.chance( 1, 3 ) ? z : c() );
                if( q.rat ) q.c.push_back( s.range( 1, 40 ) * 0.1 );
            }
            q.v0 = 0; q.v1 = sc;
            break;
        }
        default: k.type = 100; k.closed = 0; k.d = { z, ( x + u ) / 2, ( y + w ) / 2, x, y, u, w }; break;
        }
        return k;
    }
    int single()
    {
        Cv k;
        switch( s.range( 0, 5 ) )
        {
        case 0: { double p[6]; for( double& q : p ) q = c(); k.type = 110; k.d.assign( p, p + 6 ); k.closed = 0; break; }
        case 1:
        {
            double cx = c(), cy = c(), r = s.range( 1, 100000 ) * 0.001, z = c();
            ld a = s.range( 0, 7 ) * M_PIl / 4 + ( s.flip() ? 0 : s.range( 0, 700 ) * 0.001L ), w = s.chance( 1, 3 ) ? 0 : s.range( 1, 627 ) * 0.01L;
            k.type = 100; k.d = { z, cx, cy, (double)( cx + r * cosl( a ) ), (double)( cy + r * sinl( a ) ), (double)( cx + r * cosl( a + w ) ), (double)( cy + r * sinl( a + w ) ) };
            ld g = 2 * r * sinl( w / 2 ); k.closed = w == 0 ? 1 : g > 2 * res ? 0 : -1;
            if( w == 0 ) { k.d[5] = k.d[3]; k.d[6] = k.d[4]; }
            if( r < 3 * res ) k.closed = -1;
            break;
        }
        case 2:
        {
            double a = s.range( 2, 1000 ) * 0.1, b = a * s.range( 10, 95 ) * 0.01; ld t = s.range( 0, 7 ) * M_PIl / 4, w = s.chance( 1, 2 ) ? 0 : s.range( 10, 600 ) * 0.01L;
            k.type = 104; k.d = { 1 / ( a * a ), 0, 1 / ( b * b ), 0, 0, -1, c(), (double)( a * cosl( t ) ), (double)( b * sinl( t ) ), (double)( a * cosl( t + w ) ), (double)( b * sinl( t + w ) ) };
            k.closed = w == 0;
            if( s.flip() ) { std::swap( k.d[0], k.d[2] ); std::swap( k.d[7], k.d[8] ); std::swap( k.d[9], k.d[10] ); }
            break;
        }
        case 3: case 4:
        {
            k.type = 126; Nurbs& q = k.q; k.closed = -1;
            q.order = s.range( 2, 6 ); q.n = q.order + s.range( 0, 5 ); q.rat = s.flip();
            bool clamp = s.flip(); double t = s.grid( -5, 5, 0.25 );
            for( int i = 0; i < q.n + q.order; ++i )
            {
                bool in = i >= q.order && i <= q.n;
                if( i > 0 && ( !clamp || in ) ) { int mult = 1; for( int j = i - 1; j >= 0 && q.k[j] == t; --j ) ++mult; if( mult > q.order - 2 || !s.chance( 1, 4 ) || i == q.n || i == q.order ) t += s.range( 1, 12 ) * 0.25; }
                q.k.push_back( t );
            }
            int mode = s.range( 0, 3 );     // 0 anywhere, 1 in a plane, 2 on a line, 3 partly on a line
            P o( c(), c(), c() ), u( s.range( -9, 9 ), s.range( -9, 9 ), s.range( -9, 9 ) ), w( s.range( -9, 9 ), s.range( -9, 9 ), s.range( -9, 9 ) );
            for( int i = 0; i < q.n; ++i )
            {
                P p( c(), c(), c() );
                if( mode == 1 ) p = o + ( (ld)s.range( -20, 20 ) ) * u + ( (ld)s.range( -20, 20 ) ) * w;
                if( mode == 2 || ( mode == 3 && s.chance( 2, 3 ) ) ) p = o + (ld)s.range( -20, 20 ) * u;
                q.c.push_back( p.x ); q.c.push_back( p.y ); q.c.push_back( p.z );
                if( q.rat ) q.c.push_back( s.range( 1, 40 ) * 0.1 );
            }
            double lo = q.k[q.order - 1], hi = q.k[q.n];
            q.v0 = lo; q.v1 = hi;
            if( s.chance( 1, 3 ) ) { q.v0 = lo + ( hi - lo ) * s.range( 0, 3 ) * 0.125; q.v1 = hi - ( hi - lo ) * s.range( 0, 3 ) * 0.125; }
            break;
        }
        default: return composite();
        }
        xfs( k ); v.push_back( k ); return (int)v.size() - 1;
    }
    int composite()
    {
        Cv k; k.type = 102;
        int n = s.range( 1, 5 ); bool cl = n > 1 && s.flip();
        double x0 = c(), y0 = c(), x = x0, y = y0, z = s.flip() ? 0.0 : c();
        if( n == 1 && s.flip() )
        {
            Cv q; double r = s.range( 1, 1000 ) * 0.1;      // one closed curve
            if( s.flip() ) { q.type = 100; q.d = { z, x, y, x + r, y, x + r, y }; q.closed = 1; }
            else { q.type = 104; q.d = { 1 / ( r * r ), 0, 4 / ( r * r ), 0, 0, -1, z, r, 0, r, 0 }; q.closed = 1; }
            v.push_back( q ); k.parts.push_back( (int)v.size() - 1 ); k.closed = 1;
        }
        else
        {
            for( int i = 0; i < n; ++i )
            {
                double u = x + s.range( 1, 50 ), w = y + s.range( -50, 50 );
                if( cl && i + 1 == n ) { u = x0; w = y0; }
                if( s.chance( 1, 3 ) )
                {
                    // the same place, but by way of a transform of the part
                    int q = s.range( 0, 3 ); ld cs[4] = { 1, 0, -1, 0 }, sn[4] = { 0, 1, 0, -1 };
                    X t; memset( t.r, 0, sizeof t.r ); t.r[0][0] = t.r[1][1] = cs[q]; t.r[0][1] = -sn[q]; t.r[1][0] = sn[q]; t.r[2][2] = 1;
                    t.t = P( s.range( -50, 50 ), s.range( -50, 50 ), s.range( -5, 5 ) );
                    auto lx = [&]( double a, double b ) { return (double)( cs[q] * ( a - t.t.x ) + sn[q] * ( b - t.t.y ) ); };
                    auto ly = [&]( double a, double b ) { return (double)( -sn[q] * ( a - t.t.x ) + cs[q] * ( b - t.t.y ) ); };
                    Cv g = seg( lx( x, y ), ly( x, y ), lx( u, w ), ly( u, w ), (double)( z - t.t.z ), true );
                    g.xf.push_back( t ); v.push_back( g ); k.moved = true;
                }
                else v.push_back( seg( x, y, u, w, z, true ) );
                k.parts.push_back( (int)v.size() - 1 );
                x = u; y = w;
            }
            k.closed = cl ? 1 : 0;
        }
        xfs( k ); v.push_back( k ); return (int)v.size() - 1;
    }
};

IGES_ENTITY* mk( IGES& g, int t ) { IGES_ENTITY* e = NULL; REQ( g.NewEntity( (IGES_ENTITY_TYPE)t, &e ) && e, "NewEntity( " << t << " ) failed" ); return e; }

void build( IGES& g, std::vector<Cv>& v )
{
    for( auto& k : v )
    {
        IGES_ENTITY* e = mk( g, k.type ); k.e = e;
        const std::vector<double>& d = k.d;
        switch( k.type )
        {
        case 100: { auto q = dynamic_cast<IGES_ENTITY_100*>( e ); q->zOffset = d[0]; q->xCenter = d[1]; q->yCenter = d[2]; q->xStart = d[3]; q->yStart = d[4]; q->xEnd = d[5]; q->yEnd = d[6]; break; }
        case 104: { auto q = dynamic_cast<IGES_ENTITY_104*>( e ); q->A = d[0]; q->B = d[1]; q->C = d[2]; q->D = d[3]; q->E = d[4]; q->F = d[5]; q->ZT = d[6]; q->X1 = d[7]; q->Y1 = d[8]; q->X2 = d[9]; q->Y2 = d[10]; break; }
        case 110: { auto q = dynamic_cast<IGES_ENTITY_110*>( e ); q->X1 = d[0]; q->Y1 = d[1]; q->Z1 = d[2]; q->X2 = d[3]; q->Y2 = d[4]; q->Z2 = d[5]; break; }
        case 126: REQ( dynamic_cast<IGES_ENTITY_126*>( e )->SetNURBSData( k.q.n, k.q.order, k.q.k.data(), k.q.c.data(), k.q.rat, k.q.v0, k.q.v1 ), "SetNURBSData() rejects valid data" ); break;
        case 102: for( int p : k.parts ) REQ( dynamic_cast<IGES_ENTITY_102*>( e )->AddSegment( dynamic_cast<IGES_CURVE*>( v[p].e ) ), "AddSegment() of composite curve failed" ); break;
        }
        IGES_ENTITY* on = e;
        for( auto& x : k.xf )
        {
            auto t = dynamic_cast<IGES_ENTITY_124*>( mk( g, 124 ) );
            for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) t->T.R.v[i][j] = (double)x.r[i][j];
            t->T.T = MCAD_POINT( x.t.x, x.t.y, x.t.z );
            REQ( on->SetTransform( t ), "SetTransform() failed" ); on = t;
        }
    }
}

void check( const std::vector<Cv>& v, const Cv& k, IGES_ENTITY* e, double ptol, double rtol, bool loaded )
{
    IGES_CURVE* cv = dynamic_cast<IGES_CURVE*>( e );
    REQ( cv && e->GetEntityType() == k.type, "wrong type of curve" );
    std::string nm = strf( "%s curve of type %d", loaded ? "loaded" : "new", k.type );
    REQ( cv->GetNCurves() == (int)k.parts.size(), nm << ": GetNCurves() is " << cv->GetNCurves() << ", expected " << k.parts.size() );
    REQ( cv->GetCurve( -1 ) == NULL && cv->GetCurve( (int)k.parts.size() ) == NULL, nm << ": GetCurve() with an invalid index returns something" );
    REQ( cv->GetNSegments() > 0, nm << ": no segments" );
    std::function<P( const Cv&, bool, bool )> ends = [&]( const Cv& q, bool end, bool xf ) -> P
    {
        P p; const std::vector<double>& d = q.d;
        switch( q.type )
        {
        case 100: p = end ? P( d[5], d[6], d[0] ) : P( d[3], d[4], d[0] ); break;
        case 104: p = end ? P( d[9], d[10], d[6] ) : P( d[7], d[8], d[6] ); break;
        case 110: p = end ? P( d[3], d[4], d[5] ) : P( d[0], d[1], d[2] ); break;
        case 126: p = eval( q.q, end ? q.q.v1 : q.q.v0, end ); break;
        case 102: p = ends( v[end ? q.parts.back() : q.parts.front()], end, xf ); break;
        }
        if( xf ) for( auto& x : q.xf ) p = app( x, p );
        return p;
    };
    for( int m = 0; m < 4; ++m )
    {
        MCAD_POINT p( 77, 77, 77 ); bool end = m & 1, xf = m & 2;
        REQ( end ? cv->GetEndPoint( p, xf ) : cv->GetStartPoint( p, xf ), nm << ": " << ( end ? "GetEndPoint" : "GetStartPoint" ) << "() fails" );
        P w = ends( k, end, xf );
        ld t = ptol * ( 1 + k.xf.size() ) * 3 + rtol * ( fabsl( w.x ) + fabsl( w.y ) + fabsl( w.z ) + 3000 );
        REQ( len( P( p.x, p.y, p.z ) - w ) <= t, nm << ": " << ( end ? "GetEndPoint" : "GetStartPoint" ) << "( xform = " << xf << " ) is " << p.x << ", " << p.y << ", " << p.z << ", expected " << (double)w.x << ", " << (double)w.y << ", " << (double)w.z );
    }
    if( k.closed >= 0 && !( k.moved && loaded ) ) REQ( cv->IsClosed() == ( k.closed == 1 ), nm << ": IsClosed() is " << cv->IsClosed() );
    for( size_t i = 0; i < k.parts.size(); ++i )
    {
        IGES_CURVE* c = cv->GetCurve( (int)i ); REQ( c, nm << ": GetCurve( " << i << " ) is NULL" );
        if( !loaded ) REQ( c == v[k.parts[i]].e, nm << ": GetCurve( " << i << " ) is a different curve" );
        check( v, v[k.parts[i]], c, ptol, rtol, loaded );
    }
    if( k.type == 126 )
    {
        auto q = dynamic_cast<IGES_ENTITY_126*>( e ); const Nurbs& w = k.q;
        int n, o; double *kn, *co, v0, v1; bool ra, cl, pe;
        REQ( q->GetNURBSData( n, o, &kn, &co, ra, cl, pe, v0, v1 ), nm << ": GetNURBSData() fails" );
        REQ( n == w.n && o == w.order && ra == w.rat && q->IsRational() == w.rat && cl == q->IsClosed() && pe == q->isPeriodic(), nm << ": GetNURBSData() has " << n << " coefficients, order " << o << ", rational " << ra );
        for( int i = 0; i < n + o; ++i ) REQ( fabs( kn[i] - w.k[i] ) <= ( loaded ? 1e-7 * ( 1 + fabs( w.k[i] ) ) : 0 ), nm << ": knot " << i << " is " << kn[i] << ", expected " << w.k[i] );
        int st = ra ? 4 : 3;
        for( int i = 0; i < n * st; ++i ) REQ( fabs( co[i] - w.c[i] ) <= ( loaded ? ptol + 1e-9 * fabs( w.c[i] ) : 0 ), nm << ": coefficient " << i << " is " << co[i] << ", expected " << w.c[i] );
        REQ( fabs( v0 - w.v0 ) <= ( loaded ? 1e-7 : 0 ) && fabs( v1 - w.v1 ) <= ( loaded ? 1e-7 : 0 ), nm << ": parameter range" );
        P nr; int pl = planar( w, nr ); MCAD_POINT m;
        if( pl >= 0 )
        {
            REQ( q->IsPlanar() == ( pl == 1 ), nm << ": IsPlanar() is " << q->IsPlanar() );
            REQ( q->GetNormal( m ) == ( pl == 1 ), nm << ": GetNormal() returns " << ( pl != 1 ) );
            if( pl == 1 ) { P mm( m.x, m.y, m.z ); REQ( fabsl( len( mm ) - 1 ) < 1e-5 && fabsl( fabsl( dot( mm, nr ) ) - 1 ) < 1e-5, nm << ": GetNormal() is " << m.x << ", " << m.y << ", " << m.z << ", expected " << (double)nr.x << ", " << (double)nr.y << ", " << (double)nr.z ); }
        }
    }
}

void curves( Src& s, Ctx& c )
{
    double res = s.pick( std::vector<double>{ 1e-8, 1e-6, 1e-10, 1e-5 } );
    Gen g( s, res ); int n = s.range( 1, 4 ); std::vector<int> top;
    for( int i = 0; i < n; ++i ) top.push_back( g.single() );
    for( auto& k : g.v )
    {
        c.desc += strf( "%d closed %d, %zu transforms:", k.type, k.closed, k.xf.size() );
        for( double d : k.d ) c.desc += strf( " %.10g", d ); for( int p : k.parts ) c.desc += strf( " #%d", p );
        if( k.type == 126 ) { c.desc += strf( " n %d order %d rational %d [%g,%g] knots", k.q.n, k.q.order, k.q.rat, k.q.v0, k.q.v1 ); for( double d : k.q.k ) c.desc += strf( " %g", d ); c.desc += " coefficients"; for( double d : k.q.c ) c.desc += strf( " %.10g", d ); }
        c.desc += "\n"; c.label( strf( "type %d", k.type ) );
    }
    bool xf = false; for( auto& k : g.v ) xf |= !k.xf.empty();
    c.nontrivial = n >= 2 || xf || g.v[0].type == 126;
    IGES ig; ig.globalData.unitsFlag = UNIT_MILLIMETER; ig.globalData.unitsName = "MM"; ig.globalData.minResolution = res;
    build( ig, g.v );
    for( int t : top ) check( g.v, g.v[t], g.v[t].e, 0, 1e-13, false );
    if( s.chance( 1, 4 ) ) { c.label( "memory only" ); return; }
    // saved and loaded again; the curves are reached through a subfigure
    auto d = dynamic_cast<IGES_ENTITY_308*>( mk( ig, 308 ) ); d->NAME = "all";
    for( int t : top ) REQ( d->AddDE( g.v[t].e ), "AddDE() failed" );
    auto in = dynamic_cast<IGES_ENTITY_408*>( mk( ig, 408 ) ); REQ( in->SetDE( d ), "SetDE() failed" );
    std::string f = c.path( "a.igs" );
    REQ( ig.Write( f.c_str(), true ), "Write() failed" );
    IGES b, r; IGES_ENTITY_308* h = NULL; r.globalData.unitsFlag = UNIT_MILLIMETER; r.globalData.unitsName = "MM"; r.globalData.minResolution = res;
    REQ( b.Read( f.c_str() ), "Read() failed\n" << readFile( f ) );
    REQ( b.Export( &r, &h ) && h, "Export() failed" );
    size_t m = 0; IGES_ENTITY** l = NULL; REQ( h->GetDEList( m, l ) && m == 1, "Export() gave " << m << " members" );
    auto in2 = dynamic_cast<IGES_ENTITY_408*>( l[0] ); IGES_ENTITY_308* d2 = NULL; REQ( in2 && in2->GetDE( d2 ) && d2, "no subfigure" );
    REQ( d2->GetDEList( m, l ) && m == top.size(), "subfigure has " << m << " members" );
    std::vector<IGES_ENTITY*> es( l, l + m );
    for( size_t i = 0; i < m; ++i ) check( g.v, g.v[top[i]], es[i], std::max( res, 1e-9 ), 1e-9, true );
    c.label( "saved and loaded" );
}
PROPERTY( "C10", "curves", "two or more curves, a transformed one or a NURBS curve", 250000, 4000000, curves );

// arguments of SetNURBSData(), good and bad
struct Snap { bool has = false; int n = 0, o = 0, n2 = 0, o2 = 0; std::vector<double> k, k2, c; bool ra = false; double r[4] = {}; };

void setting( Src& s, Ctx& c )
{
    IGES ig; bool surf = s.flip();
    IGES_ENTITY* e = mk( ig, surf ? 128 : 126 );
    auto q1 = dynamic_cast<IGES_ENTITY_126*>( e ); auto q2 = dynamic_cast<IGES_ENTITY_128*>( e );
    Snap cur; int steps = s.range( 1, 5 ), good = 0;
    auto compare = [&]( const char* when )
    {
        int n, o, n2 = 1, o2 = 0; double *kn = NULL, *kn2 = NULL, *co = NULL, r[4] = {}; bool ra, cl, pe, cl2, pe2;
        bool ok = surf ? q2->GetNURBSData( n, n2, o, o2, &kn, &kn2, &co, ra, cl, cl2, pe, pe2, r[0], r[1], r[2], r[3] ) : q1->GetNURBSData( n, o, &kn, &co, ra, cl, pe, r[0], r[1] );
        REQ( ok == cur.has, "GetNURBSData() returns " << ok << " " << when );
        if( !ok ) return;
        REQ( n == cur.n && o == cur.o && ra == cur.ra && ( !surf || ( n2 == cur.n2 && o2 == cur.o2 ) ), "GetNURBSData(): " << n << " coefficients, order " << o << " " << when << ", expected " << cur.n << ", " << cur.o );
        REQ( std::vector<double>( kn, kn + n + o ) == cur.k, "GetNURBSData(): wrong knots " << when );
        if( surf ) REQ( std::vector<double>( kn2, kn2 + n2 + o2 ) == cur.k2, "GetNURBSData(): wrong second knots " << when );
        REQ( std::vector<double>( co, co + n * n2 * ( ra ? 4 : 3 ) ) == cur.c, "GetNURBSData(): wrong coefficients " << when );
        for( int i = 0; i < ( surf ? 4 : 2 ); ++i ) REQ( r[i] == cur.r[i], "GetNURBSData(): wrong parameter range " << when );
    };
    for( int i = 0; i < steps; ++i )
    {
        Snap t; t.has = true; t.ra = s.flip();
        auto kv = [&]( int n, int o ) { std::vector<double> k; double x = s.grid( -5, 5, 0.5 ); for( int j = 0; j < n + o; ++j ) { k.push_back( x ); if( ( j >= o - 1 && j < n ) || s.chance( 1, 3 ) ) x += s.range( 1, 8 ) * 0.25; } return k; };
        t.o = s.range( 2, 5 ); t.n = t.o + s.range( 0, 4 ); t.o2 = s.range( 2, 4 ); t.n2 = t.o2 + s.range( 0, 3 ); if( !surf ) { t.n2 = 1; t.o2 = 0; }
        t.k = kv( t.n, t.o ); if( surf ) t.k2 = kv( t.n2, t.o2 );
        t.c.resize( t.n * t.n2 * ( t.ra ? 4 : 3 ) ); for( size_t j = 0; j < t.c.size(); ++j ) t.c[j] = ( t.ra && j % 4 == 3 ) ? s.range( 1, 30 ) * 0.1 : s.grid( -50, 50, 0.5 );
        t.r[0] = t.k[t.o - 1]; t.r[1] = t.k[t.n]; if( surf ) { t.r[2] = t.k2[t.o2 - 1]; t.r[3] = t.k2[t.n2]; }
        bool expect = true; const double *pk = t.k.data(), *pk2 = t.k2.data(), *pc = t.c.data();
        int bad = s.range( 0, 11 ), bo = t.o, bn = t.n, bo2 = t.o2, bn2 = t.n2; bool second = surf && s.flip();
        switch( bad )
        {
        case 1: ( second ? bo2 : bo ) = s.range( -1, 1 ); expect = false; break;
        case 2: ( second ? bn2 : bn ) = ( second ? t.o2 : t.o ) - s.range( 1, 3 ); expect = false; break;
        case 3: pk = NULL; expect = false; break;
        case 4: pc = NULL; expect = false; break;
        case 5: if( surf ) { pk2 = NULL; expect = false; } break;
        case 6: t.r[second ? 2 : 0] = ( second ? t.k2 : t.k )[0] - 0.5; expect = false; break;
        case 7: t.r[second ? 3 : 1] = ( second ? t.k2 : t.k ).back() + 0.5; expect = false; break;
        case 8: t.r[second ? 3 : 1] = t.r[second ? 2 : 0] - s.range( 0, 1 ) * 0.25; expect = false; break;
        case 9: // the entity's own arrays
            if( cur.has )
            {
                int a, b, a2, b2; double *k1, *k2 = NULL, *co, r; bool f;
                if( surf ) q2->GetNURBSData( a, a2, b, b2, &k1, &k2, &co, f, f, f, f, f, r, r, r, r ); else q1->GetNURBSData( a, b, &k1, &co, f, f, f, r, r );
                t = cur; pk = k1; pk2 = k2; pc = co; bo = t.o; bn = t.n; bo2 = t.o2; bn2 = t.n2; c.label( "own arrays" );
                double dx = s.range( 0, 3 ); co[0] += dx; t.c[0] += dx;
            }
            break;
        }
        bool ok = surf ? q2->SetNURBSData( bn, bn2, bo, bo2, pk, pk2, pc, t.ra, s.flip(), s.flip(), t.r[0], t.r[1], t.r[2], t.r[3] ) : q1->SetNURBSData( bn, bo, pk, pc, t.ra, t.r[0], t.r[1] );
        c.desc += strf( "SetNURBSData type %d n %d order %d defect %d\n", surf ? 128 : 126, bn, bo, bad );
        REQ( ok == expect, "SetNURBSData() returns " << ok << " for " << ( expect ? "valid" : "invalid" ) << " data (defect " << bad << ")" );
        if( ok ) { cur = t; ++good; }
        compare( ok ? "after setting" : "after a rejected change" );
        if( !surf && cur.has )
        {
            Nurbs w; w.n = cur.n; w.order = cur.o; w.k = cur.k; w.c = cur.c; w.rat = cur.ra; w.v0 = cur.r[0]; w.v1 = cur.r[1];
            MCAD_POINT p; bool rep = false;
            for( int j = 0; j + w.order < (int)w.k.size(); ++j ) if( w.k[j] == w.k[j + w.order] ) rep = true;     // discontinuous
            for( int j = 1; j + w.order - 1 < (int)w.k.size() - 1; ++j ) if( w.k[j] == w.k[j + w.order - 1] ) rep = true;
            if( !rep )
            {
                REQ( q1->GetStartPoint( p ), "GetStartPoint() fails" ); P x = eval( w, w.v0, false );
                REQ( len( P( p.x, p.y, p.z ) - x ) < 1e-9, "GetStartPoint() after a change is " << p.x << ", " << p.y << ", " << p.z << ", expected " << (double)x.x << ", " << (double)x.y << ", " << (double)x.z );
                REQ( q1->GetEndPoint( p ), "GetEndPoint() fails" ); x = eval( w, w.v1, true );
                REQ( len( P( p.x, p.y, p.z ) - x ) < 1e-9, "GetEndPoint() after a change is " << p.x << ", " << p.y << ", " << p.z << ", expected " << (double)x.x << ", " << (double)x.y << ", " << (double)x.z );
            }
        }
    }
    c.nontrivial = good >= 1 && steps >= 2;
    if( cur.has )
    {
        std::string f = c.path( "a.igs" );
        REQ( ig.Write( f.c_str(), true ), "Write() failed" );
        IGES b; REQ( b.Read( f.c_str() ), "Read() of a saved spline failed\n" << readFile( f ) );
    }
}
PROPERTY( "C10", "nurbs", "two or more attempts to define a spline, one of them successful", 400000, 6000000, setting );
}
