#include "model.h"
#include "gen2d.h"
#include <memory>

// C12: segments describe the curve they were given and keep describing it when split
// C13: intersections of two segments
using namespace g2;
namespace
{
typedef std::unique_ptr<MCAD_SEGMENT> Seg;
LD scaleOf( const Curve& k ) { return 1 + fabsl( k.s.x ) + fabsl( k.s.y ) + fabsl( k.c.x ) + fabsl( k.c.y ) + k.r + k.length(); }

// everything the segment reports must describe curve k
void describes( MCAD_SEGMENT& g, const Curve& k, LD tol, const std::string& what )
{
    MCAD_SEGTYPE want = k.t == LINE ? MCAD_SEGTYPE_LINE : k.t == ARC ? MCAD_SEGTYPE_ARC : MCAD_SEGTYPE_CIRCLE;
    REQ( g.GetSegType() == want, what << ": segment type is " << g.GetSegType() << " instead of " << want );
    auto pt = [&]( MCAD_POINT p, P q, const char* n, LD t ) { REQ( dist( mk( p ), q ) <= t && p.z == 0, what << ": " << n << " is (" << p.x << "," << p.y << "," << p.z << ") instead of (" << (double)q.x << "," << (double)q.y << ")" ); };
    pt( g.GetMStart(), k.s, "start in order of traversal", tol ); pt( g.GetMEnd(), k.e, "end in order of traversal", tol );
    bool cw = k.t == ARC && k.sw < 0;
    REQ( g.IsCW() == cw, what << ": clockwise flag is " << g.IsCW() );
    pt( g.GetStart(), cw ? k.e : k.s, "counterclockwise start", tol ); pt( g.GetEnd(), cw ? k.s : k.e, "counterclockwise end", tol );
    REQ( fabsl( g.GetLength() - k.length() ) <= tol + 1e-12 * scaleOf( k ), what << ": length is " << g.GetLength() << " instead of " << (double)k.length() );
    MCAD_POINT m; REQ( g.GetMidpoint( m ), what << ": no midpoint" );
    pt( m, k.t == CIRCLE ? k.s : k.at( 0.5L ), "midpoint", tol );
    MCAD_POINT b0, b1; P lo, hi; REQ( g.GetBoundingBox( b0, b1 ), what << ": no bounding box" );
    k.bbox( lo, hi ); pt( b0, lo, "bottom left of the bounding box", 2 * tol ); pt( b1, hi, "top right of the bounding box", 2 * tol );
    if( k.t != LINE )
    {
        pt( g.GetCenter(), k.c, "center", 0 ); REQ( fabsl( g.GetRadius() - k.r ) <= tol, what << ": radius is " << g.GetRadius() );
        double a = g.GetStartAngle(), b = g.GetEndAngle();
        REQ( a < b && b <= a + 2 * M_PI + 1e-9, what << ": counterclockwise angles " << a << " .. " << b );
        REQ( g.GetMSAngle() == ( cw ? b : a ) && g.GetMEAngle() == ( cw ? a : b ), what << ": angles in order of traversal " << g.GetMSAngle() << " .. " << g.GetMEAngle() );
        P q{ k.c.x + k.r * cosl( a ), k.c.y + k.r * sinl( a ) }, w{ k.c.x + k.r * cosl( b ), k.c.y + k.r * sinl( b ) };
        pt( mp( q ), cw ? k.e : k.s, "point at the start angle", tol ); pt( mp( w ), cw ? k.s : k.e, "point at the end angle", tol );
    }
}
LD tolFor( const Curve& k ) { return 3e-8L + 1e-12L * scaleOf( k ); }

void params( Src& s, Ctx& c )
{
    MCAD_SEGMENT g; MCAD_POINT a, b;
    REQ( g.GetSegType() == MCAD_SEGTYPE_NONE && g.GetLength() == 0 && !g.GetBoundingBox( a, b ) && !g.GetMidpoint( a ), "an undefined segment describes something" );
    int n = s.range( 1, 4 );
    for( int i = 0; i < n; ++i )
    {
        Curve k = genCurve( s, s.flip() ? 10 : 300 );
        c.desc += show( k ) + "\n";
        int bad = s.chance( 1, 4 ) ? s.range( 1, 4 ) : 0;
        MCAD_POINT C = mp( k.c ), S = mp( k.s ), E = mp( k.e );
        if( k.t == CIRCLE ) { P o = onCircle( k.c, k.r, angle( s ) ); S = E = mp( o ); k.r = dist( k.c, o ); k.s = k.e = P{ k.c.x + k.r, k.c.y }; }
        switch( bad )
        {
        case 1: { MCAD_POINT* p[3] = { &S, &E, &C }; p[s.range( 0, k.t == LINE ? 1 : 2 )]->z = s.flip() ? 1 : -1e-3; break; }
        case 2: if( k.t == LINE ) E = S; else if( s.flip() ) S = C; else E = C; break;
        case 3: if( k.t == ARC ) { LD f = s.flip() ? 1.01L : 1 - 1e-4L; E = mp( P{ k.c.x + ( k.e.x - k.c.x ) * f, k.c.y + ( k.e.y - k.c.y ) * f } ); } else bad = 0; break;
        case 4: if( k.t == LINE ) { E = S; E.x += 5e-9; } else { S = C; S.x += 5e-9; } break;
        }
        if( bad == 3 && fabsl( dist( mk( E ), k.c ) - dist( mk( S ), k.c ) ) < 1e-6 ) { bad = 0; E = mp( k.e ); }
        bool ok = k.t == LINE ? g.SetParams( S, E ) : g.SetParams( C, S, E, k.sw < 0 );
        REQ( ok == !bad, ( bad ? "invalid parameters were accepted: " : "valid parameters were refused: " ) << show( k ) << " case " << bad );
        if( bad ) { REQ( g.GetSegType() == MCAD_SEGTYPE_NONE && g.GetLength() == 0, "the segment describes something after invalid parameters" ); continue; }
        c.nontrivial = true; c.label( k.t == LINE ? "line" : k.t == ARC ? "arc" : "circle" );
        describes( g, k, tolFor( k ), "after setting" );
    }
}

// repeated splitting: the pieces always make up the original curve
void split( Src& s, Ctx& c )
{
    LD lim = s.flip() ? 10 : 200;
    Curve k = genCurve( s, lim ); c.desc = show( k ) + "\n";
    std::vector<Seg> seg; std::vector<Curve> cur;
    seg.emplace_back( new MCAD_SEGMENT ); REQ( apply( k, *seg[0] ), "cannot set parameters" ); cur.push_back( k );
    bool closed = k.t == CIRCLE; LD total = k.length();
    int n = s.range( 1, 6 ), did = 0;
    for( int i = 0; i < n; ++i )
    {
        int w = s.range( 0, (int)seg.size() - 1 ); Curve& q = cur[w];
        int np = s.weighted( { 6, 6, 1, 1 } ); np = np == 0 ? 1 : np == 1 ? 2 : np == 2 ? 0 : 3;
        LD u[3]; std::list<MCAD_POINT> pl; bool off = false, atEnd = false; std::string log;
        LD len = q.length();
        for( int j = 0; j < np; ++j )
        {
            u[j] = ( 1 + s.draw( 999 ) ) / 1000.0L;
            P p = q.at( u[j] );
            int how = s.weighted( { 12, 2, 2 } );
            if( how == 1 && q.t != CIRCLE ) { bool e = s.flip(); p = e ? q.e : q.s; u[j] = e; atEnd = true; }
            if( how == 2 )
            {   // off the curve, sideways or beyond an end
                off = true; LD d = 1e-3L * ( 1 + s.draw( 5000 ) );
                if( q.t == LINE && s.flip() ) { p = P{ q.e.x + ( q.e.x - q.s.x ) / len * d, q.e.y + ( q.e.y - q.s.y ) / len * d }; }
                else if( q.t == ARC && s.flip() && 2 * PI - fabsl( q.sw ) > 1e-2L ) p = q.at( 1 + ( 2 * PI - fabsl( q.sw ) ) / 2 / fabsl( q.sw ) );
                else if( q.t == LINE ) { p.x += ( q.e.y - q.s.y ) / len * d; p.y -= ( q.e.x - q.s.x ) / len * d; }
                else { LD f = 1 + d / q.r; p.x = q.c.x + ( p.x - q.c.x ) * f; p.y = q.c.y + ( p.y - q.c.y ) * f; }
            }
            log += strf( " (%.17g,%.17g)", (double)p.x, (double)p.y );
            pl.push_back( mp( p ) );
        }
        c.desc += strf( "split %d at", w ) + log + "\n";
        if( np == 2 && !off ) { LD d = fabsl( u[0] - u[1] ) * len; if( d < 1e-4L || ( q.t == CIRCLE && len - d < 1e-4L ) ) { if( d != 0 || !s.flip() ) continue; } }
        if( !off ) for( int j = 0; j < np; ++j ) if( q.t != CIRCLE && u[j] != 0 && u[j] != 1 && std::min( u[j], 1 - u[j] ) * len < 1e-4L ) goto next;
        {
            std::list<MCAD_SEGMENT*> nl;
            std::vector<LD> cut; for( int j = 0; j < np; ++j ) if( q.t == CIRCLE || ( u[j] != 0 && u[j] != 1 ) ) cut.push_back( u[j] );
            bool valid = !off && np < 3 && np > 0 && !cut.empty() && !( q.t == CIRCLE && np != 2 );
            bool twice = cut.size() == 2 && cut[0] == cut[1];
            if( twice && q.t == CIRCLE ) valid = false;
            bool ok = seg[w]->Split( pl, nl );
            std::vector<Seg> keep; for( auto* p : nl ) keep.emplace_back( p );
            if( twice && valid && !ok ) valid = false;      // one point given twice: splitting there or refusing are both fine
            REQ( ok == valid, ( valid ? "a split at valid points failed" : "a split at invalid points succeeded" ) );
            if( !ok )
            {
                REQ( nl.empty(), "a failed split returns new segments" );
                describes( *seg[w], q, tolFor( k ), "after a failed split" );
                c.label( "refused split" ); continue;
            }
            ++did; c.label( atEnd ? "split with an end point in the list" : "split" );
            if( twice ) { cut.pop_back(); REQ( keep.size() == 1, "splitting at one point given twice yields " << keep.size() << " new segments" ); }
            std::vector<Curve> res;
            if( q.t == CIRCLE )
            {   // new: first to second point; this: second to first point
                P a = q.at( cut[0] ), b = q.at( cut[1] );
                REQ( keep.size() == 1, "splitting a circle yields " << keep.size() << " new segments" );
                res.push_back( arc( q.c, b, a, false ) ); res.push_back( arc( q.c, a, b, false ) );
            }
            else
            {
                std::sort( cut.begin(), cut.end() );
                REQ( keep.size() == cut.size(), "splitting at " << cut.size() << " points yields " << keep.size() << " new segments" );
                LD last = 0; cut.push_back( 1 );
                for( LD e : cut )
                {
                    P a = last == 0 ? q.s : q.at( last ), b = e == 1 ? q.e : q.at( e );
                    if( q.t == LINE ) res.push_back( line( a, b ) );
                    else { Curve z = q; z.s = a; z.e = b; z.a0 = q.a0 + q.sw * last; z.sw = q.sw * ( e - last ); res.push_back( z ); }
                    last = e;
                }
            }
            describes( *seg[w], res[0], tolFor( k ), "the split segment" );
            cur[w] = res[0];
            for( size_t j = 0; j < keep.size(); ++j )
            {
                describes( *keep[j], res[j + 1], tolFor( k ), "a new segment" );
                seg.insert( seg.begin() + w + 1 + j, std::move( keep[j] ) ); cur.insert( cur.begin() + w + 1 + j, res[j + 1] );
            }
        }
        next:;
    }
    LD sum = 0; for( auto& g : seg ) sum += g->GetLength();
    REQ( fabsl( sum - total ) < 1e-6L, "the pieces have a total length of " << (double)sum << " instead of " << (double)total );
    for( size_t i = 0; i + 1 < seg.size() || ( closed && i < seg.size() && seg.size() > 1 ); ++i )
    {
        MCAD_POINT a = seg[i]->GetMEnd(), b = seg[( i + 1 ) % seg.size()]->GetMStart();
        REQ( dist( mk( a ), mk( b ) ) < 1e-8L, "gap between consecutive pieces" );
    }
    c.nontrivial = did > 0;
}

// ---------------------------------------------------------------- intersections
const LD MARG = 2e-3L;
struct Expect { bool judged; std::vector<X> pts; bool tangent; bool edge; };

const char* flagName( int f ) { static const char* n[] = { "NONE", "ENDPOINT", "TANGENT", "EDGE", "INSIDE", "ENCIRCLES", "OUTSIDE", "IDENT", "MULTIEDGE" }; return f >= 0 && f < 9 ? n[f] : "?"; }

void meetTest( Src& s, Ctx& c )
{
    LD lim = s.flip() ? 10 : 200;
    Curve a = genCurve( s, lim ), b = genCurve( s, lim );
    int how = s.weighted( { 5, 3, 3, 3, 2, 2, 2 } );
    auto onA = [&]( LD u ) { P p = a.at( u ); return P{ (double)p.x, (double)p.y }; };
    static const char* hn[] = { "independent", "end on interior", "ends meet", "interior on end", "same support", "touching", "both ends" };
    LD u = ( 1 + s.draw( 999 ) ) / 1000.0L;
    P q = how == 1 ? onA( u ) : s.flip() ? a.e : a.s;       // a point b must pass through or end at
    if( how >= 1 && how <= 3 )
    {
        if( b.t == LINE )
        {
            if( how == 3 ) { P d{ b.e.x - b.s.x, b.e.y - b.s.y }; LD l = 0.1L + s.draw( 1000 ) / 1000.0L, m = 0.1L + s.draw( 1000 ) / 1000.0L; b = line( P{ (double)( q.x - d.x * l ), (double)( q.y - d.y * l ) }, P{ (double)( q.x + d.x * m ), (double)( q.y + d.y * m ) } ); }
            else if( s.flip() ) b = line( q, b.e ); else b = line( b.s, q );
        }
        else
        {
            // move b so that q is at its end or inside it
            LD w = how == 3 ? 0.02L + 0.96L * s.draw( 1000 ) / 1000.0L : s.flip() ? 1 : 0;
            P p = b.at( w ); P nc{ (double)( b.c.x + q.x - p.x ), (double)( b.c.y + q.y - p.y ) };
            if( b.t == CIRCLE ) b = circle( nc, dist( nc, q ) );
            else
            {
                LD r = dist( nc, q ), a0 = b.a0, sw = b.sw;
                P st = w == 0 ? q : onCircle( nc, r, a0 ), en = w == 1 ? q : onCircle( nc, r, a0 + sw );
                b = arc( nc, st, en, sw < 0 );
            }
        }
    }
    else if( how == 4 )
    {   // same supporting line or circle, various overlaps on a coarse grid
        static const LD g[] = { -1, -0.5L, 0, 0.25L, 0.5L, 0.75L, 1, 1.5L, 2 };
        if( a.t == LINE )
        {
            int i = s.range( 0, 8 ), j = s.range( 0, 7 ); if( j >= i ) ++j;
            P p = g[i] == 0 ? a.s : g[i] == 1 ? a.e : onA( g[i] ), r = g[j] == 0 ? a.s : g[j] == 1 ? a.e : onA( g[j] ); b = line( p, r );
        }
        else if( a.t == ARC && s.chance( 5, 6 ) )
        {   // ends of b at fractions of a and of the remainder of the circle
            LD rest = 2 * PI - fabsl( a.sw ), sg = a.sw < 0 ? -1 : 1;
            auto pos = [&]( int i ) { static const LD f[] = { 0, 0.25L, 0.5L, 0.75L, 1 }; return i < 5 ? a.a0 + a.sw * f[i] : a.a0 + a.sw + sg * rest * ( i == 5 ? 0.3L : 0.7L ); };
            int i = s.range( 0, 6 ), j = s.range( 0, 5 ); if( j >= i ) ++j;
            auto P2 = [&]( int i ) { return i == 0 ? a.s : i == 4 ? a.e : onCircle( a.c, a.r, pos( i ) ); };
            b = arc( a.c, P2( i ), P2( j ), s.flip() );
        }
        else if( a.t == ARC ) b = circle( a.c, a.r );
        else if( s.flip() ) b = genArc( s, a.c, a.r );
        else b = circle( a.c, a.r + ( s.flip() ? 0 : s.range( 1, 3 ) * 0.5L ) );
    }
    else if( how == 5 )
    {   // tangent
        if( a.t == LINE && b.t == LINE ) { LD d = 0.5L; b = line( P{ a.s.x, a.s.y + d }, P{ a.e.x, a.e.y + d } ); }
        else if( a.t == LINE || b.t == LINE )
        {
            const Curve& k = a.t == LINE ? b : a; LD t = angle( s ); P p = onCircle( k.c, k.r, t ); LD l = 1 + s.draw( 100 ) / 7.0L, m = s.draw( 3 ) == 0 ? -0.5L : 1 + s.draw( 100 ) / 7.0L;
            Curve z = line( P{ (double)( p.x - l * sinl( t ) ), (double)( p.y + l * cosl( t ) ) }, P{ (double)( p.x + m * sinl( t ) ), (double)( p.y - m * cosl( t ) ) } );
            if( a.t == LINE ) a = z; else b = z;
        }
        else
        {
            LD t = angle( s ); bool in = s.flip(); if( in && fabsl( a.r - b.r ) < 0.1L ) in = false;
            LD d = in ? a.r - b.r : a.r + b.r; P nc{ (double)( a.c.x + d * cosl( t ) ), (double)( a.c.y + d * sinl( t ) ) };
            if( b.t == CIRCLE ) b = circle( nc, b.r ); else b = arc( nc, onCircle( nc, b.r, b.a0 ), onCircle( nc, b.r, b.a0 + b.sw ), b.sw < 0 );
        }
    }
    else if( how == 6 )
    {   // b joins the two ends of a
        if( a.t != CIRCLE )
        {
            if( s.flip() ) b = line( a.e, a.s );
            else
            {
                P m{ ( a.s.x + a.e.x ) / 2, ( a.s.y + a.e.y ) / 2 }; LD l = dist( a.s, a.e ), f = ( s.range( 0, 40 ) - 20 ) / 10.0L;
                P nc{ (double)( m.x - ( a.e.y - a.s.y ) * f ), (double)( m.y + ( a.e.x - a.s.x ) * f ) }; (void)l;
                b = s.flip() ? arc( nc, a.s, a.e, s.flip() ) : arc( nc, a.e, a.s, s.flip() );
                if( fabsl( dist( nc, a.s ) - dist( nc, a.e ) ) > 5e-9L ) return;
            }
        }
    }
    if( s.flip() ) std::swap( a, b );
    if( a.length() < 1e-2L || b.length() < 1e-2L ) return;
    c.desc = std::string( hn[how] ) + "\n" + show( a ) + "\n" + show( b ) + "\n";
    MCAD_SEGMENT A, B; if( !apply( a, A ) || !apply( b, B ) ) return;
    LD sc = scaleOf( a ) + scaleOf( b );
    if( a.t == ARC ) a = of( A ); if( b.t == ARC ) b = of( B );

    std::list<MCAD_POINT> L; MCAD_INTERSECT_FLAG F = MCAD_IFLAG_MULTIEDGE;
    bool ok = A.GetIntersections( B, L, F );
    std::string got = strf( "returned %d flag %s", (int)ok, flagName( F ) ); std::vector<P> g;
    for( auto& p : L ) { g.push_back( mk( p ) ); got += strf( " (%.17g,%.17g)", p.x, p.y ); REQ( p.z == 0, "a point has a z coordinate" ); }
    c.desc += got + "\n";
    describes( A, a, tolFor( a ), "first segment afterwards" ); describes( B, b, tolFor( b ), "second segment afterwards" );
    if( a.t != LINE && b.t != LINE && dist( a.c, b.c ) < 2e-3L && fabsl( a.r - b.r ) < 1.1e-3L && ( dist( a.c, b.c ) > 1e-9L || fabsl( a.r - b.r ) > 1e-9L ) ) { c.label( "circles too close to judge" ); return; }
    // always: the points lie on both curves; points are only reported with success
    for( auto& p : g ) REQ( a.distTo( p ) < 2e-3L && b.distTo( p ) < 2e-3L, "reported point (" << (double)p.x << "," << (double)p.y << ") is not on both segments; " << got );
    REQ( ok == !g.empty(), "return value does not match the list; " << got );
    if( a.t == ARC && b.t == ARC )
    {   // both ends within what the library takes for too small to make (1e-3), but not the same points
        LD m = std::min( std::max( dist( a.s, b.s ), dist( a.e, b.e ) ), std::max( dist( a.s, b.e ), dist( a.e, b.s ) ) );
        if( m > 5e-9L && m < 2e-3L ) { c.label( "ends too close to judge" ); return; }
    }
    // both orders see the same (lines which are neither collinear nor clearly apart, by a tolerance, aside)
    bool vague = false;
    if( a.t == LINE && b.t == LINE )
    {
        LD l = a.length(), ux = ( a.e.x - a.s.x ) / l, uy = ( a.e.y - a.s.y ) / l;
        auto off = [&]( P p ) { return fabsl( ( p.x - a.s.x ) * uy - ( p.y - a.s.y ) * ux ); };
        LD m = std::max( off( b.s ), off( b.e ) ); LD sn = fabsl( ( b.e.x - b.s.x ) * uy - ( b.e.y - b.s.y ) * ux ) / b.length(); vague = m > 1e-11L && ( m < 1e-4L || sn < 1e-3L );
    }
    std::list<MCAD_POINT> L2; MCAD_INTERSECT_FLAG F2; bool ok2 = B.GetIntersections( A, L2, F2 );
    {
        MCAD_INTERSECT_FLAG m = F2 == MCAD_IFLAG_INSIDE ? MCAD_IFLAG_ENCIRCLES : F2 == MCAD_IFLAG_ENCIRCLES ? MCAD_IFLAG_INSIDE : F2;
        bool same = ok == ok2 && L.size() == L2.size() && ( F == m || ( a.t == ARC && b.t == ARC ) );
        if( same ) for( auto& p : g ) { bool f = false; for( auto& r : L2 ) f = f || dist( p, mk( r ) ) < 2e-3L; same = same && f; }
        std::string o = strf( "returned %d flag %s", (int)ok2, flagName( F2 ) ); for( auto& p : L2 ) o += strf( " (%.17g,%.17g)", p.x, p.y );
        REQ( same || vague, "the result depends on which segment is asked: " << got << " / " << o );
    }

    std::vector<X> pts; LD gap; bool clear = meet( a, b, pts, MARG, gap );
    bool bothArc = a.t != LINE && b.t != LINE;
    if( clear )
    {
        // two separate circles
        if( a.t == CIRCLE && b.t == CIRCLE && pts.empty() )
        {
            bool apart = dist( a.c, b.c ) > a.r + b.r;
            MCAD_INTERSECT_FLAG w = apart ? MCAD_IFLAG_NONE : a.r > b.r ? MCAD_IFLAG_ENCIRCLES : MCAD_IFLAG_INSIDE;
            REQ( g.empty() && F == w, "separate circles: " << got << " expected flag " << flagName( w ) );
            c.nontrivial = true; c.label( "separate circles" ); return;
        }
        std::vector<X> exp; bool endp = false;
        for( auto& x : pts )
        {
            if( x.sn < 0.02L ) return;
            LD zero = std::min( 5e-9L, 1e-9L * ( 1 + sc / 100 ) / x.sn * ( a.t == ARC || b.t == ARC ? 1 : 0.2L ) );   // ends match within 1e-8
            x.a = where( a, x.p, zero, 1e-4L / x.sn ); x.b = where( b, x.p, zero, 1e-4L / x.sn );
            if( x.a == AMB && x.b != OUT ) { c.label( "too close to an end to judge" ); return; }
            if( x.b == AMB && x.a != OUT ) { c.label( "too close to an end to judge" ); return; }
            if( x.a == OUT || x.b == OUT || x.a == AMB || x.b == AMB ) continue;
            if( x.a == END || x.b == END ) endp = true;
            exp.push_back( x );
        }
        c.nontrivial = true;
        c.label( strf( "%s/%s %d point(s)%s", a.t == LINE ? "line" : a.t == ARC ? "arc" : "circle", b.t == LINE ? "line" : b.t == ARC ? "arc" : "circle", (int)exp.size(), endp ? " at an end" : "" ) );
        std::string ex; for( auto& x : exp ) ex += strf( " (%.17g,%.17g)", (double)x.p.x, (double)x.p.y );
        REQ( g.size() == exp.size(), "number of intersections: " << got << " expected" << ex );
        for( auto& x : exp )
        {
            bool f = false; for( auto& p : g ) f = f || dist( p, x.p ) < 1e-8L * ( 1 + sc / 50 ) / x.sn;
            REQ( f, "an intersection is missing or inaccurate: " << got << " expected" << ex );
        }
        // order: counterclockwise along the arc or circle (along the first segment if both are)
        if( g.size() == 2 )
        {
            const Curve& k = a.t == LINE ? b : a; Curve z = k.t == ARC && k.sw < 0 ? arc( k.c, k.e, k.s, false ) : k;
            LD p0 = z.along( g[0] ), p1 = z.along( g[1] );
            auto atStart = [&]( P p ) { return dist( p, z.s ) < 1e-6L * ( 1 + sc ) && ( z.t == CIRCLE || dist( p, z.s ) < dist( p, z.e ) ); };
            if( atStart( g[0] ) ) p0 = 0; if( atStart( g[1] ) ) p1 = z.t == CIRCLE ? p1 : 0;
            if( !( z.t == CIRCLE && ( atStart( g[0] ) || atStart( g[1] ) ) ) ) REQ( p0 < p1, "intersections are not in counterclockwise order along the arc: " << got );
        }
        // flags
        bool share = a.t == ARC && b.t == ARC && ( ( dist( a.s, b.s ) < 1e-2L && dist( a.e, b.e ) < 1e-2L ) || ( dist( a.s, b.e ) < 1e-2L && dist( a.e, b.s ) < 1e-2L ) );
        if( share )
        {
            if( exp.size() == 2 ) REQ( F == MCAD_IFLAG_INSIDE || F == MCAD_IFLAG_OUTSIDE || F == MCAD_IFLAG_ENDPOINT || F == MCAD_IFLAG_NONE, "arcs joined at both ends: " << got );
        }
        else if( bothArc && !endp ) REQ( F == MCAD_IFLAG_NONE, "flag of plain intersections: " << got );
        else REQ( F == ( endp ? MCAD_IFLAG_ENDPOINT : MCAD_IFLAG_NONE ), "flag of " << ( endp ? "intersections at an end: " : "plain intersections: " ) << got );
        return;
    }
    // same supporting line
    if( a.t == LINE && b.t == LINE )
    {
        LD len = a.length(), ux = ( a.e.x - a.s.x ) / len, uy = ( a.e.y - a.s.y ) / len;
        auto off = [&]( P p ) { return fabsl( ( p.x - a.s.x ) * uy - ( p.y - a.s.y ) * ux ); };
        auto pos = [&]( P p ) { return ( p.x - a.s.x ) * ux + ( p.y - a.s.y ) * uy; };
        LD sn = fabsl( ( b.e.x - b.s.x ) * uy - ( b.e.y - b.s.y ) * ux ) / b.length();
        if( sn > 1e-11L ) return;
        if( off( b.s ) > 1e-2L && off( b.e ) > 1e-2L ) { REQ( g.empty() && F == MCAD_IFLAG_NONE, "parallel lines: " << got ); c.nontrivial = true; c.label( "parallel lines" ); return; }
        if( off( b.s ) > 1e-11L * sc || off( b.e ) > 1e-11L * sc ) return;
        LD lo = std::min( pos( b.s ), pos( b.e ) ), hi = std::max( pos( b.s ), pos( b.e ) );
        LD l = std::max( (LD)0, lo ), h = std::min( len, hi );
        auto at = [&]( LD t ) { return P{ a.s.x + ux * t, a.s.y + uy * t }; };
        if( h - l < -1e-4L ) { REQ( g.empty() && F == MCAD_IFLAG_NONE, "separate collinear lines: " << got ); c.label( "separate collinear lines" ); }
        else if( h - l > 1e-4L ) { REQ( g.size() == 2 && F == MCAD_IFLAG_EDGE && dist( g[0], at( l ) ) < 1e-7L && dist( g[1], at( h ) ) < 1e-7L, "overlapping lines: " << got << " expected EDGE from " << (double)at( l ).x << "," << (double)at( l ).y << " to " << (double)at( h ).x << "," << (double)at( h ).y ); c.label( "overlapping lines" ); }
        else if( fabsl( h - l ) < 1e-9L ) { REQ( g.size() == 1 && F == MCAD_IFLAG_ENDPOINT && dist( g[0], at( l ) ) < 1e-7L, "collinear lines joined at an end: " << got ); c.label( "collinear lines joined at an end" ); }
        else return;
        c.nontrivial = true; return;
    }
    // line touching a circle
    if( a.t == LINE || b.t == LINE )
    {
        const Curve& l = a.t == LINE ? a : b; const Curve& k = a.t == LINE ? b : a;
        if( fabsl( gap ) > 1e-9L ) return;
        LD len = l.length(), ux = ( l.e.x - l.s.x ) / len, uy = ( l.e.y - l.s.y ) / len, m = ( k.c.x - l.s.x ) * ux + ( k.c.y - l.s.y ) * uy;
        P p{ l.s.x + ux * m, l.s.y + uy * m };
        W w = where( l, p, 0, 0.1L ), v = where( k, p, 0, 0.1L );
        if( w == AMB || v == AMB || w == END || v == END ) return;
        bool in = w == IN && v == IN;
        if( in ) REQ( g.size() == 1 && F == MCAD_IFLAG_TANGENT && dist( g[0], p ) < 2e-3L, "line tangent to a circle: " << got );
        else REQ( g.empty() && F == MCAD_IFLAG_NONE, "line whose extension is tangent to the circle: " << got );
        c.nontrivial = true; c.label( in ? "tangent line" : "not quite tangent line" ); return;
    }
    // circles touching or coinciding
    LD d = dist( a.c, b.c );
    if( d < 1e-9L && fabsl( a.r - b.r ) < 1e-9L )
    {
        c.nontrivial = true;
        if( a.t == CIRCLE && b.t == CIRCLE ) { REQ( g.empty() && F == MCAD_IFLAG_IDENT, "identical circles: " << got ); c.label( "identical circles" ); return; }
        if( a.t == CIRCLE || b.t == CIRCLE )
        {
            const Curve& k = a.t == ARC ? a : b; P s0 = k.sw < 0 ? k.e : k.s, e0 = k.sw < 0 ? k.s : k.e;
            REQ( g.size() == 2 && F == MCAD_IFLAG_EDGE && dist( g[0], s0 ) < 1e-6L && dist( g[1], e0 ) < 1e-6L, "arc on the circle itself: " << got ); c.label( "arc on its circle" ); return;
        }
        // two arcs of one circle, as counterclockwise intervals of [0, 2pi) relative to a
        Curve p = a.sw < 0 ? arc( a.c, a.e, a.s, false ) : a, q = b.sw < 0 ? arc( b.c, b.e, b.s, false ) : b;
        for( P x : { p.s, p.e } ) for( P y : { q.s, q.e } ) if( dist( x, y ) > 5e-9L && dist( x, y ) < 1e-4L ) { c.nontrivial = false; c.label( "ends too close to judge" ); return; }
        LD q0 = p.along( q.s ), tol = 1e-6L / a.r;
        if( dist( q.s, p.s ) < 1e-6L ) q0 = 0; if( dist( q.s, p.e ) < 1e-6L ) q0 = p.sw;
        LD q1 = q0 + q.sw; if( fabsl( q1 - 2 * PI ) < tol ) q1 = 2 * PI; if( fabsl( q1 - 2 * PI - p.sw ) < tol ) q1 = 2 * PI + p.sw; if( fabsl( q1 - p.sw ) < tol ) q1 = p.sw;
        struct I { LD lo, hi; }; std::vector<I> ov;
        for( int k = 0; k < 2; ++k ) { LD lo = std::max( (LD)0, q0 - 2 * PI * k ), hi = std::min( p.sw, q1 - 2 * PI * k ); if( hi >= lo ) ov.push_back( I{ lo, hi } ); }
        int edges = 0, pointsOnly = 0; I e{ 0, 0 }; std::vector<LD> pp;
        for( auto& i : ov ) if( i.hi - i.lo > 1e-4L / a.r ) { ++edges; e = i; } else if( i.hi - i.lo == 0 ) { ++pointsOnly; pp.push_back( i.lo ); } else return;
        auto at = [&]( LD t ) { return P{ p.c.x + p.r * cosl( p.a0 + t ), p.c.y + p.r * sinl( p.a0 + t ) }; };
        if( edges == 0 && pointsOnly == 0 ) { REQ( g.empty() && F == MCAD_IFLAG_NONE, "separate arcs of one circle: " << got ); c.label( "separate arcs of one circle" ); }
        else if( edges == 2 ) { REQ( F == MCAD_IFLAG_MULTIEDGE || F == MCAD_IFLAG_EDGE, "arcs overlapping twice: " << got ); c.label( "arcs overlapping twice" ); }
        else if( edges == 1 && !pointsOnly ) { REQ( F == MCAD_IFLAG_EDGE && g.size() == 2 && dist( g[0], at( e.lo ) ) < 1e-5L && dist( g[1], at( e.hi ) ) < 1e-5L, "overlapping arcs of one circle: " << got << " expected EDGE from angle " << (double)( p.a0 + e.lo ) << " to " << (double)( p.a0 + e.hi ) ); c.label( "overlapping arcs" ); }
        else if( edges == 1 ) { REQ( F == MCAD_IFLAG_EDGE || F == MCAD_IFLAG_MULTIEDGE, "overlapping arcs joined at the other end: " << got ); c.label( "overlapping arcs, joined" ); }
        else
        {
            REQ( F == MCAD_IFLAG_ENDPOINT && (int)g.size() == pointsOnly, "arcs of one circle joined end to end: " << got );
            for( LD t : pp ) { bool f = false; for( auto& r : g ) f = f || dist( r, at( t ) ) < 1e-6L; REQ( f, "arcs of one circle joined end to end: " << got ); }
            c.label( "arcs of one circle joined" );
        }
        return;
    }
    if( fabsl( gap ) < 1e-9L )
    {
        bool ext = d > std::max( a.r, b.r ); LD f = ext ? 1 : a.r > b.r ? 1 : -1;
        if( !ext && d < 0.05L ) return;
        if( std::min( a.r, b.r ) < 0.1L ) return;
        P p{ a.c.x + f * ( b.c.x - a.c.x ) / d * a.r, a.c.y + f * ( b.c.y - a.c.y ) / d * a.r };
        W w = where( a, p, 0, 0.1L ), v = where( b, p, 0, 0.1L );
        if( w == AMB || v == AMB || w == END || v == END ) return;
        bool in = w == IN && v == IN;
        if( a.t == CIRCLE && b.t == CIRCLE && !ext ) REQ( g.empty() && F == ( a.r > b.r ? MCAD_IFLAG_ENCIRCLES : MCAD_IFLAG_INSIDE ), "circle touching another from the inside: " << got );
        else if( in ) REQ( F == MCAD_IFLAG_TANGENT, "circles or arcs which touch: " << got );
        else REQ( F == MCAD_IFLAG_NONE && g.empty(), "arcs of touching circles which do not touch: " << got );
        c.nontrivial = true; c.label( in ? ( ext ? "touching from outside" : "touching from inside" ) : "arcs of touching circles" ); return;
    }
}
PROPERTY( "C12", "params", "at least one segment was set to valid parameters and everything it reports was compared with the curve", 1500000, 15000000, params );
PROPERTY( "C12", "split", "at least one segment was split and all pieces were compared", 2000000, 16000000, split );
PROPERTY( "C13", "meet", "the relation of the two segments is clear cut, so that flag, number, position and order of the points were judged", 3500000, 50000000, meetTest );
}
