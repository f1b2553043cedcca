#include "model.h"
#include <algorithm>
#include <functional>

double tolFor( double v, double res )
{
    // values below 1e-8 are written as zero by design; otherwise the declared resolution or the
    // precision of a double decides
    double t = std::max( res, fabs( v ) * 4e-15 );
    if( fabs( v ) < 1.001e-8 ) t = std::max( t, 1.001e-8 );
    return t;
}

std::string genText( Src& s, int maxLen )
{
    static const std::string special = ",;H/ '\"#$%&()*+-.:<=>?@[]^_`{|}~0123456789";
    int len = s.chance( 1, 8 ) ? s.range( 1, maxLen ) : s.range( 1, std::min( maxLen, 12 ) );
    std::string o;
    for( int i = 0; i < len; ++i )
    {
        if( s.chance( 1, 4 ) ) o += special[s.draw( special.size() )];
        else o += (char)( 'A' + s.draw( 26 ) );
    }
    return o;
}

std::string genHeaderLine( Src& s )
{
    int len = (int)s.pick( std::vector<int>{ 0, 1, 10, 30, 71, 72 } );
    std::string o;
    for( int i = 0; i < len; ++i ) o += s.chance( 1, 6 ) ? (char)( 32 + s.draw( 95 ) ) : (char)( 'a' + s.draw( 26 ) );
    return o;
}

namespace
{
struct G
{
    Src& s; const GenOpts& o; std::vector<AEnt> m;
    std::vector<int> colors, xforms, props;
    std::vector<int> uViews, uFonts, uLabels, uAssoc;      // unsupported entities to point at
    G( Src& ss, const GenOpts& oo ) : s( ss ), o( oo ) {}

    Val R( double v ) { return Val::R( v, tolFor( v, o.res ) ); }
    Val R( double v, double res ) { return Val::R( v, tolFor( v, res ) ); }
    double c() { return s.real( o.lim ); }

    int add( int type, int form = 0 ) { AEnt e; e.type = type; e.form = form; m.push_back( e ); return (int)m.size() - 1; }

    // directory attributes; 'mask' says which fields the entity type supports
    enum { LFP = 1, LEVEL = 2, COLOR = 4, LW = 8, VIS = 16, DEP = 32, USE = 64, HIER = 128, XF = 256, ALL = 0x17f };
    void attr( int i, int mask )
    {
        AEnt& e = m[i];
        if( s.chance( 1, 3 ) ) { int n = s.range( 1, 8 ); for( int k = 0; k < n; ++k ) e.label += "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[s.draw( 38 )]; }
        if( s.chance( 1, 3 ) ) e.subscript = s.pick( std::vector<int>{ 1, 7, 42, 12345, 99999999 } );
        if( !s.flip() ) return;
        if( ( mask & LFP ) && s.flip() ) e.lfp = s.range( 0, 5 );
        if( ( mask & LEVEL ) && s.flip() ) e.level = s.pick( std::vector<int>{ 0, 1, 2, 99, 1000, 9999999 } );
        if( ( mask & COLOR ) && s.flip() ) { if( colors.size() && s.flip() ) e.colorEnt = s.pick( colors ); else e.color = s.range( 0, 8 ); }
        if( ( mask & LW ) && s.flip() ) e.lw = s.range( 0, 1 );
        if( ( mask & VIS ) && s.chance( 1, 3 ) ) e.blank = 1;
        if( ( mask & USE ) && s.flip() ) e.use = s.range( 0, 6 );
        if( ( mask & HIER ) && s.flip() ) e.hier = s.range( 0, 2 );
        if( uFonts.size() && ( mask & LFP ) && s.chance( 1, 4 ) ) { e.lfp = 0; e.lfpEnt = s.pick( uFonts ); }
        if( uViews.size() && ( mask & LFP ) && e.type != 508 && s.chance( 1, 4 ) ) e.viewEnt = s.pick( uViews );
        if( uLabels.size() && ( mask & LFP ) && s.chance( 1, 4 ) ) e.lassocEnt = s.pick( uLabels );
        if( uAssoc.size() && s.chance( 1, 4 ) ) e.assoc.push_back( s.pick( uAssoc ) );
        if( o.extras && props.size() && s.chance( 1, 3 ) ) e.props.push_back( s.pick( props ) );
        if( o.extras && s.chance( 1, 6 ) )
        {
            int n = s.range( 1, 3 );
            for( int k = 0; k < n; ++k ) { std::string t; int l = s.pick( std::vector<int>{ 1, 5, 20, 63, 64 } ); for( int q = 0; q < l; ++q ) t += ( q && q + 1 < l && s.chance( 1, 5 ) ) ? ' ' : (char)( 33 + s.draw( 94 ) ); e.comments.push_back( t ); }
        }
    }
    void xf( int i ) { if( o.xforms && xforms.size() && s.chance( 1, 3 ) ) m[i].xform = s.pick( xforms ); }

    int unknown( int type, int form )
    {
        int i = add( type, form ); m[i].dead = true;
        int n = s.range( 1, 6 );
        for( int k = 0; k < n; ++k )
            switch( s.draw( 5 ) )
            {
            case 0: m[i].params.push_back( Val::I( s.range( 0, 100 ) ) ); break;
            case 1: m[i].params.push_back( R( c() ) ); break;
            case 2: m[i].params.push_back( Val::S( genText( s, 100 ) ) ); break;
            case 3: m[i].params.push_back( s.flip() ? Val::P( s.draw( (uint32_t)m.size() ) ) : Val::N( s.draw( (uint32_t)m.size() ) ) ); break;
            default: m[i].params.push_back( Val() ); break;
            }
        attr( i, ALL | HIER | DEP | USE ); m[i].dep = s.range( 0, 3 );
        xf( i );
        return i;
    }
    void unknowns()
    {
        int n = s.range( 0, 3 );
        for( int k = 0; k < n; ++k )
            switch( s.draw( 6 ) )
            {
            case 0: uViews.push_back( unknown( 410, 0 ) ); break;
            case 1: uFonts.push_back( unknown( 304, s.range( 1, 2 ) ) ); break;
            case 2: uLabels.push_back( unknown( 402, 5 ) ); break;
            case 3: uAssoc.push_back( unknown( 402, s.pick( std::vector<int>{ 1, 7, 9, 14, 15 } ) ) ); break;
            case 4: uViews.push_back( unknown( 402, s.pick( std::vector<int>{ 3, 4, 19 } ) ) ); break;
            default: unknown( s.pick( std::vector<int>{ 106, 108, 112, 114, 116, 118, 125, 130, 140, 141, 143, 150, 158, 184, 190, 192, 212, 213, 214, 216, 228, 230, 302, 310, 312, 316, 320, 322, 404, 412, 416, 420, 430, 600, 699, 10000 } ), s.draw( 3 ) ); break;
            }
    }
    int color()
    {
        int i = add( 314 ); m[i].use = 2; m[i].color = 2;
        for( int k = 0; k < 3; ++k ) m[i].params.push_back( R( s.range( 0, 1000 ) * 0.1, 0.1 ) );
        if( s.flip() ) m[i].params.push_back( Val::S( genText( s, 90 ) ) );
        else m[i].params.push_back( Val::S( "" ) );
        attr( i, 0 ); m[i].props.clear();
        if( o.foreign ) m[i].color = s.range( 0, 8 );
        return i;
    }
    int xform( int parent )
    {
        int i = add( 124 );
        double a = s.range( 0, 628 ) * 0.01, b = s.range( 0, 628 ) * 0.01;
        double ca = cos( a ), sa = sin( a ), cb = cos( b ), sb = sin( b );
        double r[9] = { ca, -sa * cb, sa * sb, sa, ca * cb, -ca * sb, 0, sb, cb };
        switch( s.draw( 4 ) )
        {
        case 0: { double id[9] = { 1, 0, 0, 0, 1, 0, 0, 0, 1 }; std::copy( id, id + 9, r ); break; }
        case 1: { double id[9] = { ca, -sa, 0, sa, ca, 0, 0, 0, 1 }; std::copy( id, id + 9, r ); break; }
        case 2: { for( int k = 0; k < 3; ++k ) r[k * 3] = -r[k * 3]; m[i].form = 1; break; }
        default: break;
        }
        for( int k = 0; k < 3; ++k ) { for( int j = 0; j < 3; ++j ) m[i].params.push_back( R( r[3 * k + j] ) ); m[i].params.push_back( R( c() ) ); }
        attr( i, 0 ); m[i].props.clear();
        m[i].xform = parent;
        return i;
    }
    int prop()
    {
        int i = add( 406, 15 );
        m[i].params.push_back( Val::I( 1 ) ); m[i].params.push_back( Val::S( genText( s, 100 ) ) );
        attr( i, LEVEL ); m[i].props.clear();
        return i;
    }
    int line( double x1, double y1, double z1, double x2, double y2, double z2 )
    {
        int i = add( 110, 0 );
        for( double v : { x1, y1, z1, x2, y2, z2 } ) m[i].params.push_back( R( v ) );
        attr( i, ALL ); return i;
    }
    int anyLine() { int i = line( c(), c(), c(), c(), c(), c() ); xf( i ); return i; }
    int arc( double z, double cx, double cy, double r, double a0, double a1, bool full )
    {
        int i = add( 100 );
        double x1 = cx + r * cos( a0 ), y1 = cy + r * sin( a0 );
        double x2 = full ? x1 : cx + r * cos( a1 ), y2 = full ? y1 : cy + r * sin( a1 );
        for( double v : { z, cx, cy, x1, y1, x2, y2 } ) m[i].params.push_back( R( v ) );
        attr( i, ALL ); return i;
    }
    int anyArc( bool full )
    {
        double r = s.pick( std::vector<double>{ 1.0, 0.01, 0.5, 10.0, 123.456, 1000.0, 20000.0 } );
        return arc( s.flip() ? 0 : c(), c(), c(), r, s.range( 0, 628 ) * 0.01, s.range( 0, 628 ) * 0.01, full );
    }
    int conic()
    {
        int form = s.range( 1, 3 );
        int i = add( 104, form );
        double a = s.range( 1, 400 ) * 0.05, b = s.range( 1, 400 ) * 0.05;
        if( form == 1 && a == b ) b += 1.0;
        double A, B = 0, C, D = 0, E = 0, F, x1, y1, x2, y2;
        double t0 = s.range( 0, 300 ) * 0.01, t1 = t0 + s.range( 1, 300 ) * 0.01;
        if( form == 1 ) { A = 1 / ( a * a ); C = 1 / ( b * b ); F = -1; x1 = a * cos( t0 ); y1 = b * sin( t0 ); x2 = a * cos( t1 ); y2 = b * sin( t1 ); }
        else if( form == 2 ) { t0 = t0 * 0.3 - 0.5; t1 = t0 + 0.3; A = 1 / ( a * a ); C = -1 / ( b * b ); F = -1; x1 = a * cosh( t0 ); y1 = b * sinh( t0 ); x2 = a * cosh( t1 ); y2 = b * sinh( t1 ); }
        else { A = 1; C = 0; F = 0; E = -a; x1 = t0; y1 = t0 * t0 / a; x2 = t1; y2 = t1 * t1 / a; }
        for( double v : { A, B, C, D, E, F } ) m[i].params.push_back( R( v, 1e-10 ) );
        m[i].params.push_back( R( s.flip() ? 0 : c(), 1e-10 ) );
        for( double v : { x1, y1, x2, y2 } ) m[i].params.push_back( R( v, 1e-10 ) );
        attr( i, ALL ); xf( i ); return i;
    }
    std::vector<double> knots( int n, int order )
    {
        // clamped, non-decreasing, n + order knots
        std::vector<double> k;
        for( int i = 0; i < order; ++i ) k.push_back( 0.0 );
        int inner = n - order; double scale = s.pick( std::vector<double>{ 1.0, 1.0, 10.0, 0.001 } );
        for( int i = 1; i <= inner; ++i ) k.push_back( scale * ( s.chance( 1, 5 ) && i > 1 ? (double)( i - 1 ) / ( inner + 1 ) : (double)i / ( inner + 1 ) ) );
        std::sort( k.begin(), k.end() );
        for( int i = 0; i < order; ++i ) k.push_back( scale );
        return k;
    }
    int nurbs( bool planarUV )
    {
        int i = add( 126, 0 );
        int order = s.range( 2, 4 ), n = order + s.range( 0, 4 );
        bool rational = s.flip();
        std::vector<double> k = knots( n, order );
        double v0 = k[0], v1 = k.back();
        if( s.chance( 1, 4 ) ) { double w = v1 - v0; v1 = v0 + w * 0.75; v0 += w * 0.25; }
        AEnt& e = m[i];
        e.params.push_back( Val::I( n - 1 ) ); e.params.push_back( Val::I( order - 1 ) );
        e.params.push_back( Val() );                      // planarity is computed by the library
        e.params.push_back( Val::I( 0 ) ); e.params.push_back( Val::I( rational ? 0 : 1 ) ); e.params.push_back( Val::I( 0 ) );
        for( double x : k ) e.params.push_back( R( x, 1e-15 ) );
        for( int q = 0; q < n; ++q ) e.params.push_back( R( rational ? s.range( 1, 40 ) * 0.1 : 1.0, 1e-6 ) );
        bool coll = s.chance( 1, 6 );                      // control points on a line or in one place
        double px = 0, py = 0, pz = 0, ax = 0, ay = 0, az = 0;
        for( int q = 0; q < n; ++q )
        {
            if( q == 0 || !coll ) { px = c(); py = c(); pz = planarUV ? 0.0 : c(); }
            else if( q == 1 ) { ax = s.range( -3, 3 ); ay = s.range( -3, 3 ); az = planarUV ? 0.0 : s.range( -3, 3 ); }
            if( q > 0 && coll ) { int t = s.range( 0, 2 ); px += t * ax; py += t * ay; pz += t * az; }
            e.params.push_back( R( px, 1e-12 ) ); e.params.push_back( R( py, 1e-12 ) ); e.params.push_back( R( pz, 1e-12 ) );
        }
        e.params.push_back( R( v0, 1e-15 ) ); e.params.push_back( R( v1, 1e-15 ) );
        e.params.push_back( Val() ); e.params.push_back( Val() ); e.params.push_back( Val() );
        if( o.foreign )
        {
            bool pl = s.flip();
            e.params[2] = Val::I( pl ); e.params[3] = Val::I( s.draw( 2 ) ); e.params[5] = Val::I( s.draw( 2 ) );
            e.form = s.range( 0, 5 );
            size_t z = e.params.size() - 3;
            e.params[z] = R( 0 ); e.params[z + 1] = R( 0 ); e.params[z + 2] = R( 1 );
        }
        attr( i, ALL ); if( !planarUV ) xf( i );
        return i;
    }
    int surf()
    {
        int i = add( 128, 0 );
        int o1 = s.range( 2, 3 ), n1 = o1 + s.range( 0, 2 ), o2 = s.range( 2, 3 ), n2 = o2 + s.range( 0, 2 );
        bool rational = s.flip();
        std::vector<double> k1 = knots( n1, o1 ), k2 = knots( n2, o2 );
        bool p1 = s.chance( 1, 6 ), p2 = s.chance( 1, 6 );
        AEnt& e = m[i];
        e.params.push_back( Val::I( n1 - 1 ) ); e.params.push_back( Val::I( n2 - 1 ) ); e.params.push_back( Val::I( o1 - 1 ) ); e.params.push_back( Val::I( o2 - 1 ) );
        e.params.push_back( Val::I( p1 ) ); e.params.push_back( Val::I( p2 ) ); e.params.push_back( Val::I( rational ? 0 : 1 ) );
        e.params.push_back( Val::I( p1 ) ); e.params.push_back( Val::I( p2 ) );
        for( double x : k1 ) e.params.push_back( R( x, 1e-8 ) );
        for( double x : k2 ) e.params.push_back( R( x, 1e-8 ) );
        for( int q = 0; q < n1 * n2; ++q ) e.params.push_back( R( rational ? s.range( 1, 40 ) * 0.1 : 1.0, 1e-6 ) );
        for( int q = 0; q < n1 * n2 * 3; ++q ) e.params.push_back( R( c(), 1e-8 ) );
        e.params.push_back( R( k1[0], 1e-8 ) ); e.params.push_back( R( k1.back(), 1e-8 ) ); e.params.push_back( R( k2[0], 1e-8 ) ); e.params.push_back( R( k2.back(), 1e-8 ) );
        if( o.foreign ) { e.form = s.range( 0, 9 ); for( int q : { 4, 5, 7, 8 } ) e.params[q] = Val::I( s.draw( 2 ) ); }
        attr( i, ALL ); xf( i );
        return i;
    }
    // chain of curves; closed polygons end where they start
    int composite( bool closed, bool uv )
    {
        int n = s.range( closed ? 3 : 1, 6 );
        std::vector<int> seg;
        double x0 = c(), y0 = c(), px = x0, py = y0, z = uv ? 0 : ( s.flip() ? 0 : c() );
        for( int k = 0; k < n; ++k )
        {
            double nx = ( closed && k + 1 == n ) ? x0 : px + s.range( 1, 100 ), ny = ( closed && k + 1 == n ) ? y0 : py + s.range( -100, 100 );
            int kind = s.draw( 3 );
            if( kind == 1 && hypot( nx - px, ny - py ) > 1e-3 )
            {
                // half circle from p to n, counterclockwise
                int a = add( 100 );
                for( double v : { z, ( px + nx ) / 2, ( py + ny ) / 2, px, py, nx, ny } ) m[a].params.push_back( R( v ) );
                attr( a, ALL ); m[a].xform = -1; seg.push_back( a );
            }
            else { int a = line( px, py, z, nx, ny, z ); seg.push_back( a ); }
            px = nx; py = ny;
        }
        int i = add( 102 );
        m[i].params.push_back( Val::I( (long)seg.size() ) );
        for( int a : seg ) { m[i].params.push_back( Val::P( a ) ); m[a].dep = 1; }
        attr( i, ALL | HIER );
        if( !closed && !uv ) xf( i );
        return i;
    }
    int closedCurve() { if( s.flip() ) return anyArc( true ); return composite( true, false ); }
    int anyCurve()
    {
        switch( s.draw( 5 ) ) { case 0: return anyLine(); case 1: { int i = anyArc( s.flip() ); xf( i ); return i; } case 2: return conic(); case 3: return nurbs( false ); default: return composite( s.flip(), false ); }
    }
    void own( int child ) { m[child].dep = o.foreign ? s.range( 1, 1 ) : 1; }
    int revolve()
    {
        int l = anyLine(), g = anyCurve(); own( l ); own( g );
        int i = add( 120 );
        double a0 = s.range( 0, 300 ) * 0.01;
        m[i].params = { Val::P( l ), Val::P( g ), R( a0, 1e-15 ), R( a0 + s.range( 1, 628 ) * 0.005, 1e-15 ) };
        attr( i, ALL ); xf( i ); return i;
    }
    int tabcyl()
    {
        int g = anyCurve(); own( g );
        int i = add( 122 );
        m[i].params = { Val::P( g ), R( c() ), R( c() ), R( c() ) };
        attr( i, ALL ); xf( i ); return i;
    }
    int anySurface() { switch( s.draw( 3 ) ) { case 0: return surf(); case 1: return tabcyl(); default: return revolve(); } }
    int onSurface( int sf )
    {
        int form = s.draw( 3 );
        int b = form == 1 ? -1 : ( s.flip() ? composite( true, true ) : nurbs( true ) );
        int cc = form == 2 ? -1 : ( s.flip() ? composite( true, false ) : anyCurve() );
        if( b >= 0 ) own( b );
        if( cc >= 0 ) own( cc );
        int i = add( 142 );
        int pref = b < 0 ? 2 : cc < 0 ? 1 : s.range( 0, 3 );
        m[i].params = { Val::I( s.range( 0, 3 ) ), Val::P( sf ), Val::P( b ), Val::P( cc ), Val::I( pref ) };
        attr( i, LFP | LEVEL | COLOR | LW | VIS ); return i;
    }
    int trimmed()
    {
        int sf = anySurface(); own( sf );
        bool bounded = !s.chance( 1, 6 );
        int outer = -1;
        if( bounded ) { outer = onSurface( sf ); own( outer ); }
        int nIn = s.range( 0, 3 ); std::vector<int> in;
        for( int k = 0; k < nIn; ++k ) { in.push_back( onSurface( sf ) ); own( in.back() ); }
        int i = add( 144 );
        m[i].params = { Val::P( sf ), Val::I( bounded ? 1 : 0 ), Val::I( nIn ), Val::P( outer ) };
        for( int k : in ) m[i].params.push_back( Val::P( k ) );
        attr( i, LFP | LEVEL | COLOR | LW | VIS | XF ); xf( i ); return i;
    }
    int cylinder()
    {
        int i = add( 154 );
        double a = s.range( 0, 628 ) * 0.01, b = s.range( 0, 314 ) * 0.01;
        double dx = sin( b ) * cos( a ), dy = sin( b ) * sin( a ), dz = cos( b );
        if( s.flip() ) { dx = dy = 0; dz = 1; }
        m[i].params = { R( s.range( 1, 1000 ) * 0.1 ), R( s.range( 1, 1000 ) * 0.1 ), R( c() ), R( c() ), R( c() ), R( dx ), R( dy ), R( dz ) };
        attr( i, LFP | LEVEL | COLOR | LW | VIS | XF ); xf( i ); return i;
    }
    int extrude()
    {
        int cu = closedCurve(); own( cu );
        int i = add( 164 );
        double a = s.range( 0, 628 ) * 0.01, b = s.range( 0, 314 ) * 0.01;
        double dx = sin( b ) * cos( a ), dy = sin( b ) * sin( a ), dz = cos( b );
        if( s.flip() ) { dx = dy = 0; dz = 1; }
        m[i].params = { Val::P( cu ), R( s.range( 1, 1000 ) * 0.1 ), R( dx ), R( dy ), R( dz ) };
        attr( i, LFP | LEVEL | COLOR | LW | VIS | XF ); xf( i ); return i;
    }
    int btree()
    {
        int na = s.range( 2, 4 ); std::vector<int> args;
        for( int k = 0; k < na; ++k ) args.push_back( s.flip() ? cylinder() : extrude() );
        int i = add( 180 );
        m[i].params.push_back( Val::I( 2 * na - 1 ) );
        m[i].params.push_back( Val::N( args[0] ) );
        for( int k = 1; k < na; ++k ) { m[i].params.push_back( Val::N( args[k] ) ); m[i].params.push_back( Val::I( s.range( 1, 3 ) ) ); }
        attr( i, LFP | LEVEL | COLOR | LW | VIS | XF | ( o.foreign ? HIER : 0 ) ); xf( i ); return i;
    }
    int thing()
    {
        std::vector<int> w = { 3, 3, 2, 3, 4, 2, 2, 2, 4, 2, 2, 1 };
        switch( s.weighted( w ) )
        {
        case 0: return anyLine(); case 1: { int i = anyArc( s.chance( 1, 3 ) ); xf( i ); return i; } case 2: return conic(); case 3: return nurbs( false );
        case 4: return composite( s.flip(), false ); case 5: return revolve(); case 6: return tabcyl(); case 7: return surf();
        case 8: return trimmed(); case 9: return cylinder(); case 10: return extrude(); default: return btree();
        }
    }
    std::vector<int> subfigs;
    int subfigure( std::vector<int> members )
    {
        int i = add( 308 );
        int depth = 0;
        for( int k : members ) { own( k ); if( m[k].type == 408 ) depth = std::max<int>( depth, 1 + (int)m[m[k].params[0].i].params[0].i ); }
        m[i].params = { Val::I( depth ), Val::S( genText( s, 100 ) ), Val::I( (long)members.size() ) };
        for( int k : members ) m[i].params.push_back( Val::P( k ) );
        m[i].use = 2;
        attr( i, LFP | LEVEL | COLOR | LW | HIER ); m[i].use = 2; xf( i );
        subfigs.push_back( i );
        return i;
    }
    int instance( int sub )
    {
        int i = add( 408 );
        m[i].params = { Val::P( sub ), R( c() ), R( c() ), R( c() ), R( s.pick( std::vector<double>{ 1.0, 1.0, 2.0, 0.5, 0.001 } ) ) };
        attr( i, LFP | LEVEL | COLOR | LW | VIS | HIER | USE | XF ); xf( i ); return i;
    }

    // a small closed B-rep: vertices, edges, loops, faces, shell, solid
    int brep()
    {
        int nv = s.range( 3, 6 );
        int vl = add( 502, 1 );
        m[vl].params.push_back( Val::I( nv ) );
        std::vector<double> vx;
        for( int k = 0; k < nv * 3; ++k ) { vx.push_back( c() ); m[vl].params.push_back( R( vx.back() ) ); }
        attr( vl, LEVEL | VIS | USE ); m[vl].dep = 1;
        int nf = s.range( 1, 3 ); std::vector<int> faces;
        // one edge list with nv edges around the polygon
        std::vector<int> cv;
        for( int k = 0; k < nv; ++k )
        {
            int q = ( k + 1 ) % nv;
            cv.push_back( line( vx[3 * k], vx[3 * k + 1], vx[3 * k + 2], vx[3 * q], vx[3 * q + 1], vx[3 * q + 2] ) ); own( cv.back() );
        }
        int el = add( 504, 1 );
        m[el].params.push_back( Val::I( nv ) );
        for( int k = 0; k < nv; ++k )
            for( Val v : { Val::P( cv[k] ), Val::P( vl ), Val::I( k + 1 ), Val::P( vl ), Val::I( ( k + 1 ) % nv + 1 ) } ) m[el].params.push_back( v );
        attr( el, LEVEL | VIS | USE ); m[el].dep = 1; m[el].hier = 1;
        for( int f = 0; f < nf; ++f )
        {
            int sf = anySurface(); own( sf );
            int nl = s.range( 1, 2 ); std::vector<int> loops;
            for( int l = 0; l < nl; ++l )
            {
                int lp = -1; std::vector<Val> ps; int ne = s.range( 1, nv );
                ps.push_back( Val::I( ne ) );
                for( int k = 0; k < ne; ++k )
                {
                    bool vert = s.chance( 1, 6 );
                    ps.push_back( Val::I( vert ? 1 : 0 ) ); ps.push_back( Val::P( vert ? vl : el ) ); ps.push_back( Val::I( s.range( 1, nv ) ) ); ps.push_back( Val::I( s.draw( 2 ) ) );
                    int nc = s.range( 0, 2 ); ps.push_back( Val::I( nc ) );
                    for( int q = 0; q < nc; ++q ) { int pc = s.flip() ? nurbs( true ) : anyLine(); own( pc ); ps.push_back( Val::I( s.draw( 2 ) ) ); ps.push_back( Val::P( pc ) ); }
                }
                lp = add( 508, s.flip() ); m[lp].params = ps; attr( lp, LFP | LEVEL | COLOR | LW | VIS | USE | HIER ); m[lp].dep = 1; loops.push_back( lp );
            }
            int fc = add( 510, 1 );
            m[fc].params = { Val::P( sf ), Val::I( nl ), Val::I( s.draw( 2 ) ) };
            for( int l : loops ) m[fc].params.push_back( Val::P( l ) );
            attr( fc, LEVEL | VIS | USE | HIER ); m[fc].dep = 1; faces.push_back( fc );
        }
        int sh = add( 514, 1 );
        m[sh].params.push_back( Val::I( nf ) );
        for( int f : faces ) { m[sh].params.push_back( Val::P( f ) ); m[sh].params.push_back( Val::I( s.draw( 2 ) ) ); }
        attr( sh, LEVEL | VIS | USE | HIER ); m[sh].dep = 1;
        return sh;
    }
    int solid()
    {
        int sh = brep(); int nv = s.chance( 1, 3 ) ? s.range( 1, 2 ) : 0; std::vector<int> voids;
        for( int k = 0; k < nv; ++k ) voids.push_back( brep() );
        int i = add( 186 );
        m[i].params = { Val::P( sh ), Val::I( s.draw( 2 ) ), Val::I( nv ) };
        for( int v : voids ) { m[i].params.push_back( Val::P( v ) ); m[i].params.push_back( Val::I( s.draw( 2 ) ) ); }
        attr( i, ALL | HIER ); m[i].dep = 0; xf( i );
        return i;
    }
};
}

void shuffleModel( Src& s, std::vector<AEnt>& m )
{
    size_t n = m.size();
    std::vector<int> pos( n );       // pos[old] = new
    std::vector<int> ord( n );
    for( size_t i = 0; i < n; ++i ) ord[i] = (int)i;
    for( size_t i = n; i > 1; --i ) { size_t j = i - 1 - s.draw( (uint32_t)i ); std::swap( ord[i - 1], ord[j] ); }
    for( size_t i = 0; i < n; ++i ) pos[ord[i]] = (int)i;
    std::vector<AEnt> r( n );
    auto fx = [&]( int& p ) { if( p >= 0 ) p = pos[p]; };
    for( size_t i = 0; i < n; ++i )
    {
        AEnt e = m[i];
        fx( e.xform ); fx( e.colorEnt ); fx( e.structEnt ); fx( e.viewEnt ); fx( e.lassocEnt ); fx( e.levelEnt ); fx( e.lfpEnt );
        for( auto& v : e.params ) if( ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i >= 0 ) v.i = pos[v.i];
        for( auto& p : e.assoc ) p = pos[p];
        for( auto& p : e.props ) p = pos[p];
        r[pos[i]] = e;
    }
    m = r;
}

std::vector<AEnt> genModel( Src& s, const GenOpts& o )
{
    G g( s, o );
    int nc = s.range( 0, 2 ); for( int i = 0; i < nc; ++i ) g.colors.push_back( g.color() );
    if( o.xforms ) { int nx = s.range( 0, 3 ); for( int i = 0; i < nx; ++i ) g.xforms.push_back( g.xform( g.xforms.size() && s.chance( 1, 3 ) ? s.pick( g.xforms ) : -1 ) ); }
    if( o.extras ) { int np = s.range( 0, 2 ); for( int i = 0; i < np; ++i ) g.props.push_back( g.prop() ); }
    if( o.unsupported ) g.unknowns();
    int n = s.range( 1, o.maxThings );
    std::vector<int> top;
    for( int i = 0; i < n; ++i ) top.push_back( g.thing() );
    if( o.brep && s.chance( 1, 3 ) ) top.push_back( g.solid() );
    if( o.brep && s.chance( 1, 12 ) ) { int sh = g.brep(); g.m[sh].dep = 0; if( s.chance( 2, 3 ) ) g.m[sh].form = 2; top.push_back( sh ); }   // a shell on its own may be open
    if( o.subfig && s.flip() )
    {
        int ns = s.range( 1, 3 );
        for( int k = 0; k < ns; ++k )
        {
            std::vector<int> mem; int nm = s.range( 1, 3 );
            for( int q = 0; q < nm && top.size(); ++q ) { size_t j = s.draw( (uint32_t)top.size() ); mem.push_back( top[j] ); top.erase( top.begin() + j ); }
            if( mem.empty() ) break;
            int sub = g.subfigure( mem );
            int ni = s.range( 1, 2 );
            for( int q = 0; q < ni; ++q ) top.push_back( g.instance( sub ) );
        }
    }
    // reference bookkeeping: types which exist only for their referers are dropped without one
    for( bool again = true; again; )
    {
        again = false;
        std::vector<int> refs( g.m.size(), 0 );
        for( auto& e : g.m )
        {
            if( e.dead ) continue;
            if( e.xform >= 0 ) refs[e.xform]++;
            if( e.colorEnt >= 0 ) refs[e.colorEnt]++;
            for( auto& v : e.params ) if( ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i >= 0 ) refs[v.i]++;
            for( int p : e.props ) refs[p]++;
        }
        for( size_t i = 0; i < g.m.size(); ++i )
        {
            int t = g.m[i].type;
            if( !g.m[i].dead && refs[i] == 0 && ( t == 124 || t == 314 || t == 502 || t == 504 || t == 508 || t == 510 || g.m[i].dep != 0 ) ) { g.m[i].dead = true; again = true; }
        }
    }
    return g.m;
}

GlobalVals genGlobals( Src& s, bool foreign )
{
    GlobalVals g;
    if( s.chance( 1, 3 ) )
    {
        static const std::string cand = ",;/#$%&*!:<=>?@|~_^";
        g.pd = cand[s.draw( cand.size() )];
        do g.rd = cand[s.draw( cand.size() )]; while( false );
        if( g.rd == g.pd ) g.rd = g.pd == ';' ? ',' : ';';
    }
    g.productS = genText( s, 60 ); g.nativeSys = genText( s, 60 ); g.preproc = genText( s, 40 );
    g.productR = s.flip() ? genText( s, 40 ) : g.productS;
    g.author = s.chance( 1, 4 ) ? "" : genText( s, 40 ); g.org = s.chance( 1, 4 ) ? "" : genText( s, 100 );
    g.unit = s.pick( std::vector<int>{ 2, 1, 4, 5, 6, 7, 8, 9, 10, 11 } );
    static const char* nm[] = { "", "IN", "MM", "", "FT", "MI", "M", "KM", "MIL", "UM", "CM", "UIN" };
    g.unitName = nm[g.unit];
    g.scale = s.pick( std::vector<double>{ 1.0, 1.0, 1.0, 0.125, 8.0, 2.5 } );
    g.gradations = s.pick( std::vector<int>{ 1, 2, 10, 100 } );
    g.maxLW = s.pick( std::vector<double>{ 0.5, 0.01, 1.0, 3.25 } );
    g.maxCoord = s.pick( std::vector<double>{ 0.0, 1000.0, 123.5 } );
    g.version = s.range( 3, 11 ); g.draft = s.range( 0, 7 );
    int y = s.range( 1980, 2090 ), mo = s.range( 1, 12 ), d = s.range( 1, mo == 2 ? ( y % 4 ? 28 : 29 ) : 30 + ( ( mo + mo / 8 ) & 1 ) ), h = s.range( 0, 23 ), mi = s.range( 0, 59 ), se = s.range( 0, 59 );
    g.created = strf( "%04d%02d%02d.%02d%02d%02d", y, mo, d, h, mi, se );
    if( s.chance( 1, 4 ) ) g.created = strf( "%02d%02d%02d.%02d%02d%02d", y % 100, mo, d, h, mi, se );
    g.modified = s.flip() ? g.created : strf( "%04d%02d%02d.%02d%02d%02d", y + 1, mo, d, h, mi, se );
    g.note = "";
    g.intBits = s.pick( std::vector<int>{ 32, 16, 8 } ); g.fmax = s.pick( std::vector<int>{ 38, 37, 75 } ); g.fsig = s.pick( std::vector<int>{ 6, 7 } );
    g.dmax = s.pick( std::vector<int>{ 308, 307 } ); g.dsig = s.pick( std::vector<int>{ 15, 14, 16 } );
    (void)foreign;
    return g;
}

void setGlobals( IGES& ig, const GlobalVals& g )
{
    IGES_GLOBAL& d = ig.globalData;
    d.pdelim = g.pd; d.rdelim = g.rd; d.productIDSS = g.productS; d.nativeSystemID = g.nativeSys; d.preprocessorVersion = g.preproc;
    d.productIDRS = g.productR; d.modelScale = g.scale; d.unitsFlag = (IGES_UNIT)g.unit; d.maxLinewidthGrad = g.gradations; d.maxLinewidth = g.maxLW;
    d.creationDate = g.created; d.minResolution = g.minRes; d.maxCoordinateValue = g.maxCoord; d.author = g.author; d.organization = g.org;
    d.igesVersion = g.version; d.draftStandard = (IGES_DRAFTING_STANDARD)g.draft; d.modificationDate = g.modified; d.applicationNote = g.note;
    d.nIntegerBits = g.intBits; d.floatMaxExp = g.fmax; d.floatMaxSig = g.fsig; d.doubleMaxExp = g.dmax; d.doubleMaxSig = g.dsig;
}

#define BREQ( c ) REQ( c, "API call failed while building the model: " #c " for " << describe( e, (int)i ) )

void buildModel( IGES& ig, const std::vector<AEnt>& m, std::vector<IGES_ENTITY*>& out )
{
    out.assign( m.size(), (IGES_ENTITY*)NULL );
    for( size_t i = 0; i < m.size(); ++i )
    {
        const AEnt& e = m[i];
        BREQ( ig.NewEntity( e.type, &out[i] ) && out[i] && out[i]->GetEntityType() == e.type );
    }
    // links; children first so that checks on children (closure, depth) see complete data
    std::vector<int> state( m.size(), 0 );
    std::function<void( size_t )> build = [&]( size_t i ) {
        if( state[i] ) return;
        state[i] = 1;
        const AEnt& e = m[i];
        for( auto& v : e.params ) if( ( v.k == Val::PTR || v.k == Val::NPTR ) && v.i >= 0 ) build( v.i );
        if( e.xform >= 0 ) build( e.xform );
        if( e.colorEnt >= 0 ) build( e.colorEnt );
        for( int p : e.props ) build( p );
        IGES_ENTITY* p = out[i];
        auto r = [&]( size_t k ) { return e.params[k].r; };
        auto E = [&]( size_t k ) -> IGES_ENTITY* { return e.params[k].i < 0 ? NULL : out[e.params[k].i]; };
        auto C = [&]( size_t k ) -> IGES_CURVE* { return dynamic_cast<IGES_CURVE*>( E( k ) ); };
        if( e.xform >= 0 ) BREQ( p->SetTransform( out[e.xform] ) );
        switch( e.type )
        {
        case 100: { IGES_ENTITY_100* q = dynamic_cast<IGES_ENTITY_100*>( p ); q->zOffset = r( 0 ); q->xCenter = r( 1 ); q->yCenter = r( 2 ); q->xStart = r( 3 ); q->yStart = r( 4 ); q->xEnd = r( 5 ); q->yEnd = r( 6 ); break; }
        case 102: { IGES_ENTITY_102* q = dynamic_cast<IGES_ENTITY_102*>( p ); for( size_t k = 1; k < e.params.size(); ++k ) BREQ( q->AddSegment( C( k ) ) ); break; }
        case 104: { IGES_ENTITY_104* q = dynamic_cast<IGES_ENTITY_104*>( p ); q->A = r( 0 ); q->B = r( 1 ); q->C = r( 2 ); q->D = r( 3 ); q->E = r( 4 ); q->F = r( 5 ); q->ZT = r( 6 ); q->X1 = r( 7 ); q->Y1 = r( 8 ); q->X2 = r( 9 ); q->Y2 = r( 10 ); break; }
        case 110: { IGES_ENTITY_110* q = dynamic_cast<IGES_ENTITY_110*>( p ); q->X1 = r( 0 ); q->Y1 = r( 1 ); q->Z1 = r( 2 ); q->X2 = r( 3 ); q->Y2 = r( 4 ); q->Z2 = r( 5 ); break; }
        case 120: { IGES_ENTITY_120* q = dynamic_cast<IGES_ENTITY_120*>( p ); BREQ( q->SetL( C( 0 ) ) ); BREQ( q->SetC( C( 1 ) ) ); q->SA = r( 2 ); q->TA = r( 3 ); break; }
        case 122: { IGES_ENTITY_122* q = dynamic_cast<IGES_ENTITY_122*>( p ); BREQ( q->SetDE( C( 0 ) ) ); q->LX = r( 1 ); q->LY = r( 2 ); q->LZ = r( 3 ); break; }
        case 124: { IGES_ENTITY_124* q = dynamic_cast<IGES_ENTITY_124*>( p ); for( int a = 0; a < 3; ++a ) for( int b = 0; b < 3; ++b ) q->T.R.v[a][b] = r( 4 * a + b ); q->T.T.x = r( 3 ); q->T.T.y = r( 7 ); q->T.T.z = r( 11 ); break; }
        case 126:
        {
            IGES_ENTITY_126* q = dynamic_cast<IGES_ENTITY_126*>( p );
            int K = (int)e.params[0].i, M = (int)e.params[1].i; bool rat = e.params[4].i == 0; int n = K + 1, nk = K + M + 2;
            std::vector<double> kn, co;
            for( int k = 0; k < nk; ++k ) kn.push_back( r( 6 + k ) );
            for( int k = 0; k < n; ++k ) { for( int d = 0; d < 3; ++d ) co.push_back( r( 6 + nk + n + 3 * k + d ) ); if( rat ) co.push_back( r( 6 + nk + k ) ); }
            BREQ( q->SetNURBSData( n, M + 1, kn.data(), co.data(), rat, r( 6 + nk + 4 * n ), r( 7 + nk + 4 * n ) ) );
            break;
        }
        case 128:
        {
            IGES_ENTITY_128* q = dynamic_cast<IGES_ENTITY_128*>( p );
            int n1 = (int)e.params[0].i + 1, n2 = (int)e.params[1].i + 1, o1 = (int)e.params[2].i + 1, o2 = (int)e.params[3].i + 1; bool rat = e.params[6].i == 0;
            std::vector<double> k1, k2, co; size_t b = 9;
            for( int k = 0; k < n1 + o1; ++k ) k1.push_back( r( b++ ) );
            for( int k = 0; k < n2 + o2; ++k ) k2.push_back( r( b++ ) );
            int n = n1 * n2;
            for( int k = 0; k < n; ++k ) { for( int d = 0; d < 3; ++d ) co.push_back( r( b + n + 3 * k + d ) ); if( rat ) co.push_back( r( b + k ) ); }
            size_t z = b + 4 * n;
            BREQ( q->SetNURBSData( n1, n2, o1, o2, k1.data(), k2.data(), co.data(), rat, e.params[7].i != 0, e.params[8].i != 0, r( z ), r( z + 1 ), r( z + 2 ), r( z + 3 ) ) );
            break;
        }
        case 142: { IGES_ENTITY_142* q = dynamic_cast<IGES_ENTITY_142*>( p ); q->CRTN = (int)e.params[0].i; q->PREF = (int)e.params[4].i; BREQ( q->SetSPTR( E( 1 ) ) ); BREQ( q->SetBPTR( E( 2 ) ) ); BREQ( q->SetCPTR( E( 3 ) ) ); break; }
        case 144: { IGES_ENTITY_144* q = dynamic_cast<IGES_ENTITY_144*>( p ); BREQ( q->SetPTS( E( 0 ) ) ); BREQ( q->SetPTO( dynamic_cast<IGES_ENTITY_142*>( E( 3 ) ) ) ); for( size_t k = 4; k < e.params.size(); ++k ) BREQ( q->AddPTI( dynamic_cast<IGES_ENTITY_142*>( E( k ) ) ) ); break; }
        case 154: { IGES_ENTITY_154* q = dynamic_cast<IGES_ENTITY_154*>( p ); q->H = r( 0 ); q->R = r( 1 ); q->X1 = r( 2 ); q->Y1 = r( 3 ); q->Z1 = r( 4 ); q->I1 = r( 5 ); q->J1 = r( 6 ); q->K1 = r( 7 ); break; }
        case 164: { IGES_ENTITY_164* q = dynamic_cast<IGES_ENTITY_164*>( p ); BREQ( q->SetClosedCurve( C( 0 ) ) ); q->L = r( 1 ); q->I1 = r( 2 ); q->J1 = r( 3 ); q->K1 = r( 4 ); break; }
        case 180: { IGES_ENTITY_180* q = dynamic_cast<IGES_ENTITY_180*>( p ); for( size_t k = 1; k < e.params.size(); ++k ) { if( e.params[k].k == Val::NPTR ) BREQ( q->AddArg( E( k ) ) ); else BREQ( q->AddOp( (BTREE_OPERATOR)e.params[k].i ) ); } break; }
        case 308: { IGES_ENTITY_308* q = dynamic_cast<IGES_ENTITY_308*>( p ); q->NAME = e.params[1].s; for( size_t k = 3; k < e.params.size(); ++k ) BREQ( q->AddDE( E( k ) ) ); break; }
        case 314: { IGES_ENTITY_314* q = dynamic_cast<IGES_ENTITY_314*>( p ); q->red = r( 0 ); q->green = r( 1 ); q->blue = r( 2 ); q->cname = e.params.size() > 3 ? e.params[3].s : ""; break; }
        case 406: { IGES_ENTITY_406* q = dynamic_cast<IGES_ENTITY_406*>( p ); BREQ( q->SetData( e.params[1].s.c_str() ) ); break; }
        case 408: { IGES_ENTITY_408* q = dynamic_cast<IGES_ENTITY_408*>( p ); BREQ( q->SetDE( dynamic_cast<IGES_ENTITY_308*>( E( 0 ) ) ) ); q->X = r( 1 ); q->Y = r( 2 ); q->Z = r( 3 ); q->S = r( 4 ); break; }
        default: FAILMSG( "harness: type not handled" );
        }
        if( e.form != p->GetEntityForm() ) BREQ( p->SetEntityForm( e.form ) );
        if( e.colorEnt >= 0 ) BREQ( p->SetColor( out[e.colorEnt] ) );
        else if( e.color && e.type != 314 ) BREQ( p->SetColor( (IGES_COLOR)e.color ) );
        if( e.lfp ) BREQ( p->SetLineFontPattern( (IGES_LINEFONT_PATTERN)e.lfp ) );
        if( e.level ) BREQ( p->SetLevel( e.level ) );
        if( e.lw ) BREQ( p->SetLineWeightNum( e.lw ) );
        if( e.label.size() ) BREQ( p->SetLabel( e.label ) );
        if( e.subscript ) BREQ( p->SetEntitySubscript( e.subscript ) );
        if( e.blank ) BREQ( p->SetVisibility( false ) );
        if( e.use && e.type != 308 && e.type != 314 ) BREQ( p->SetEntityUse( (IGES_STAT_USE)e.use ) );
        if( e.hier ) BREQ( p->SetHierarchy( (IGES_STAT_HIER)e.hier ) );
        for( int x : e.props ) BREQ( p->AddOptionalEntity( out[x] ) );
        for( auto& t : e.comments ) BREQ( p->AddComment( t ) );
    };
    for( size_t i = 0; i < m.size(); ++i ) build( i );
}
