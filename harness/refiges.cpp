#include "refiges.h"
#include <cstring>
#include <cstdlib>
#include <algorithm>

std::string hstr( const std::string& s ) { return s.empty() ? std::string() : strf( "%zuH", s.size() ) + s; }

bool tokInt( const Tok& t, long& v )
{
    if( t.str ) return false;
    std::string s = t.s;
    size_t a = s.find_first_not_of( ' ' ), b = s.find_last_not_of( ' ' );
    if( a == std::string::npos ) return false;
    s = s.substr( a, b - a + 1 );
    char* e; v = strtol( s.c_str(), &e, 10 );
    return *e == 0;
}

bool tokReal( const Tok& t, double& v, bool strict )
{
    if( t.str ) return false;
    std::string s = t.s;
    size_t a = s.find_first_not_of( ' ' ), b = s.find_last_not_of( ' ' );
    if( a == std::string::npos ) return false;
    s = s.substr( a, b - a + 1 );
    // [+-] digits [. digits] [ (E|D) [+-] digits ]
    size_t i = 0; bool dig = false, dot = false, ex = false;
    if( s[i] == '+' || s[i] == '-' ) ++i;
    while( i < s.size() && isdigit( (unsigned char)s[i] ) ) ++i, dig = true;
    if( i < s.size() && s[i] == '.' ) { dot = true; ++i; while( i < s.size() && isdigit( (unsigned char)s[i] ) ) ++i, dig = true; }
    if( !dig ) return false;
    if( i < s.size() && ( s[i] == 'E' || s[i] == 'D' || ( !strict && ( s[i] == 'e' || s[i] == 'd' ) ) ) )
    {
        ex = true; s[i] = 'e'; ++i;
        if( i < s.size() && ( s[i] == '+' || s[i] == '-' ) ) ++i;
        if( i >= s.size() ) return false;
        while( i < s.size() && isdigit( (unsigned char)s[i] ) ) ++i;
    }
    if( i != s.size() ) return false;
    if( strict && !dot && !ex ) return false;
    v = strtod( s.c_str(), NULL );
    return true;
}

// split delimited free-format data; returns position after the record delimiter or npos
static size_t lexParams( const std::string& d, size_t i, char pd, char rd, std::vector<Tok>& out, std::string& err )
{
    size_t n = d.size();
    for( ;; )
    {
        while( i < n && d[i] == ' ' ) ++i;
        Tok t; t.str = false;
        if( i < n && isdigit( (unsigned char)d[i] ) )
        {
            size_t j = i;
            while( j < n && isdigit( (unsigned char)d[j] ) ) ++j;
            if( j < n && d[j] == 'H' )
            {
                size_t len = strtoul( d.substr( i, j - i ).c_str(), NULL, 10 );
                if( j + 1 + len > n ) { err = "Hollerith string runs past the end of the data"; return std::string::npos; }
                t.str = true; t.s = d.substr( j + 1, len );
                i = j + 1 + len;
                while( i < n && d[i] == ' ' ) ++i;
                if( i >= n ) { err = "no delimiter after string"; return std::string::npos; }
                if( d[i] != pd && d[i] != rd ) { err = strf( "character '%c' after a string instead of a delimiter", d[i] ); return std::string::npos; }
            }
        }
        if( !t.str )
        {
            size_t j = i;
            while( j < n && d[j] != pd && d[j] != rd ) ++j;
            if( j >= n ) { err = "no record delimiter"; return std::string::npos; }
            t.s = d.substr( i, j - i );
            i = j;
            size_t b = t.s.find_last_not_of( ' ' );
            t.s = b == std::string::npos ? "" : t.s.substr( 0, b + 1 );
            if( t.s.find( ' ' ) != std::string::npos ) { err = "blank inside the value '" + t.s + "'"; return std::string::npos; }
        }
        out.push_back( t );
        if( d[i] == rd ) return i + 1;
        ++i;
    }
}

static bool fixedInt( const std::string& f, int& v, bool blankOk )
{
    size_t a = f.find_first_not_of( ' ' );
    if( a == std::string::npos ) { v = 0; return blankOk; }
    char* e; v = (int)strtol( f.c_str() + a, &e, 10 );
    return *e == 0;     // right justified: no trailing blanks
}

bool parseIges( const std::string& text, PDoc& d )
{
    std::vector<std::string> lines;
    size_t p = 0;
    while( p < text.size() )
    {
        size_t q = text.find( '\n', p );
        if( q == std::string::npos ) { d.bad( "last line is not terminated" ); q = text.size(); }
        std::string l = text.substr( p, q - p );
        if( !l.empty() && l[l.size() - 1] == '\r' ) l.erase( l.size() - 1 );
        lines.push_back( l );
        p = q + 1;
    }
    std::vector<std::string> sec[5];
    const char* order = "SGDPT"; int cur = 0;
    for( size_t i = 0; i < lines.size(); ++i )
    {
        const std::string& l = lines[i];
        if( l.size() != 80 ) { d.bad( strf( "line %zu has %zu columns", i + 1, l.size() ) ); return false; }
        for( unsigned char c : l ) if( c < 32 || c > 126 ) { d.bad( strf( "line %zu has character %d", i + 1, c ) ); return false; }
        const char* w = strchr( order, l[72] );
        if( !w ) { d.bad( strf( "line %zu: section letter '%c'", i + 1, l[72] ) ); return false; }
        int s = (int)( w - order );
        if( s < cur ) { d.bad( strf( "line %zu: section %c out of order", i + 1, l[72] ) ); return false; }
        cur = s;
        int n;
        if( !fixedInt( l.substr( 73, 7 ), n, false ) || n != (int)sec[s].size() + 1 ) { d.bad( strf( "line %zu: sequence '%s', expected %zu", i + 1, l.substr( 73 ).c_str(), sec[s].size() + 1 ) ); return false; }
        sec[s].push_back( l.substr( 0, 72 ) );
    }
    for( int s = 0; s < 5; ++s ) if( sec[s].empty() && s != 2 && s != 3 ) { d.bad( strf( "no %c section", order[s] ) ); return false; }
    d.start = sec[0];
    // terminate
    if( sec[4].size() != 1 ) d.bad( "more than one T line" );
    {
        const std::string& t = sec[4][0];
        for( int s = 0; s < 4; ++s )
        {
            int n;
            if( t[s * 8] != order[s] || !fixedInt( t.substr( s * 8 + 1, 7 ), n, false ) || n != (int)sec[s].size() )
                d.bad( strf( "terminate record '%s' does not give %zu lines for section %c", t.c_str(), sec[s].size(), order[s] ) );
        }
        if( t.find_first_not_of( ' ', 32 ) != std::string::npos ) d.bad( "terminate record columns 33-72 not blank" );
    }
    // global
    {
        std::string g; for( auto& l : sec[1] ) g += l;
        size_t i = 0; char pd = ',', rd = ';';
        if( g.compare( 0, 2, "1H" ) == 0 ) { pd = g[2]; i = 3; if( g[3] != pd ) { d.bad( "global: delimiter 1 not followed by delimiter" ); return false; } ++i; }
        else if( g[0] == ',' ) i = 1;
        else { d.bad( "global: first parameter malformed" ); return false; }
        while( i < g.size() && g[i] == ' ' ) ++i;
        if( g.compare( i, 2, "1H" ) == 0 ) { rd = g[i + 2]; i += 3; if( g[i] != pd && g[i] != rd ) { d.bad( "global: delimiter 2 not followed by delimiter" ); return false; } ++i; }
        else if( g[i] == pd ) ++i;
        else { d.bad( "global: second parameter malformed" ); return false; }
        d.pd = pd; d.rd = rd;
        std::string err;
        size_t e = lexParams( g, i, pd, rd, d.globals, err );
        if( e == std::string::npos ) { d.bad( "global section: " + err ); return false; }
        if( g.find_first_not_of( ' ', e ) != std::string::npos ) d.bad( "global section: data after the record delimiter" );
        if( d.globals.size() > 24 ) d.bad( "global section: more than 26 parameters" );
        while( d.globals.size() < 24 ) { Tok t; t.str = false; d.globals.push_back( t ); }
    }
    // directory
    if( sec[2].size() % 2 ) { d.bad( "odd number of directory lines" ); return false; }
    for( size_t i = 0; i + 1 < sec[2].size(); i += 2 )
    {
        PEnt e; const std::string& a = sec[2][i]; const std::string& b = sec[2][i + 1];
        int dummy, t2; bool ok = true;
        auto F = [&]( const std::string& l, int k ) { return l.substr( k * 8, 8 ); };
        ok &= fixedInt( F( a, 0 ), e.type, false ); ok &= fixedInt( F( a, 1 ), e.pd, false ); ok &= fixedInt( F( a, 2 ), e.structure, true );
        ok &= fixedInt( F( a, 3 ), e.lfp, true ); ok &= fixedInt( F( a, 4 ), e.level, true ); ok &= fixedInt( F( a, 5 ), e.view, true );
        ok &= fixedInt( F( a, 6 ), e.xform, true ); ok &= fixedInt( F( a, 7 ), e.lassoc, true );
        std::string st = F( a, 8 );
        for( auto& c : st ) { if( c == ' ' ) c = '0'; if( !isdigit( (unsigned char)c ) ) ok = false; }
        e.blank = atoi( st.substr( 0, 2 ).c_str() ); e.dep = atoi( st.substr( 2, 2 ).c_str() ); e.use = atoi( st.substr( 4, 2 ).c_str() ); e.hier = atoi( st.substr( 6, 2 ).c_str() );
        ok &= fixedInt( F( b, 0 ), t2, false ); ok &= fixedInt( F( b, 1 ), e.lw, true ); ok &= fixedInt( F( b, 2 ), e.color, true );
        ok &= fixedInt( F( b, 3 ), e.nlines, true ); ok &= fixedInt( F( b, 4 ), e.form, true );
        if( F( b, 5 ).find_first_not_of( ' ' ) != std::string::npos || F( b, 6 ).find_first_not_of( ' ' ) != std::string::npos ) d.bad( strf( "DE %zu: reserved fields not blank", i + 1 ) );
        e.label = F( b, 7 ); ok &= fixedInt( F( b, 8 ), e.subscript, true );
        (void)dummy;
        e.seq = (int)i + 1;
        if( !ok ) { d.bad( strf( "DE %zu: malformed field\n%s\n%s", i + 1, a.c_str(), b.c_str() ) ); return false; }
        if( t2 != e.type ) d.bad( strf( "DE %zu: entity type differs between lines (%d, %d)", i + 1, e.type, t2 ) );
        if( e.blank > 1 || e.dep > 3 || e.use > 6 || e.hier > 2 ) d.bad( strf( "DE %zu: status number %s out of range", i + 1, st.c_str() ) );
        d.ents.push_back( e );
    }
    // parameter data: every P line belongs to exactly one entity, in order
    int maxSeq = (int)sec[2].size();
    size_t next = 1;
    std::vector<size_t> ord( d.ents.size() );
    for( size_t i = 0; i < ord.size(); ++i ) ord[i] = i;
    std::stable_sort( ord.begin(), ord.end(), [&]( size_t a, size_t b ) { return d.ents[a].pd < d.ents[b].pd; } );
    for( size_t k = 0; k < ord.size(); ++k )
    {
        PEnt& e = d.ents[ord[k]];
        if( e.pd != (int)next || e.nlines < 1 || e.pd + e.nlines - 1 > (int)sec[3].size() )
        {
            d.bad( strf( "DE %d (type %d): parameter lines %d..%d, expected to start at %zu (P section has %zu lines)", e.seq, e.type, e.pd, e.pd + e.nlines - 1, next, sec[3].size() ) );
            return false;
        }
        next += e.nlines;
        std::string data; std::vector<size_t> ends;
        for( int j = 0; j < e.nlines; ++j )
        {
            const std::string& l = sec[3][e.pd - 1 + j];
            int bp;
            if( l[64] != ' ' || !fixedInt( l.substr( 65, 7 ), bp, false ) || bp != e.seq )
            {
                d.bad( strf( "P line %d: back pointer '%s', expected %d", e.pd + j, l.substr( 64 ).c_str(), e.seq ) );
                return false;
            }
            data += l.substr( 0, 64 ); ends.push_back( data.size() );
        }
        std::string err;
        size_t en = lexParams( data, 0, d.pd, d.rd, e.params, err );
        if( en == std::string::npos ) { d.bad( strf( "DE %d (type %d) parameter data: %s: %s", e.seq, e.type, err.c_str(), data.substr( 0, 400 ).c_str() ) ); return false; }
        long tv;
        if( e.params.empty() || !tokInt( e.params[0], tv ) || tv != e.type ) { d.bad( strf( "DE %d: parameter data does not start with type %d", e.seq, e.type ) ); return false; }
        // comments: the rest of the line with the record delimiter and all further lines
        size_t ln = ( en - 1 ) / 64;
        std::string rest = data.substr( en, ( ln + 1 ) * 64 - en );
        auto trim = []( std::string s ) { size_t b = s.find_last_not_of( ' ' ); return b == std::string::npos ? std::string() : s.substr( 0, b + 1 ); };
        if( !trim( rest ).empty() ) e.comments.push_back( trim( rest ) );
        for( size_t j = ln + 1; j < (size_t)e.nlines; ++j ) e.comments.push_back( trim( data.substr( j * 64, 64 ) ) );
        while( e.params.size() > 1 && false ) {}
    }
    if( next != sec[3].size() + 1 ) d.bad( strf( "%zu parameter lines belong to no entity", sec[3].size() + 1 - next ) );
    // directory pointers are odd and within range
    for( auto& e : d.ents )
    {
        auto chk = [&]( int v, const char* w ) { if( v && ( v < 0 || v > maxSeq || v % 2 == 0 ) ) d.bad( strf( "DE %d: %s pointer %d is not a directory entry", e.seq, w, v ) ); };
        chk( e.xform, "transform" ); chk( e.view, "view" ); chk( e.lassoc, "label" );
        if( e.color < 0 ) chk( -e.color, "color" );
        if( e.level < 0 ) chk( -e.level, "level" );
        if( e.lfp < 0 ) chk( -e.lfp, "line font" );
        if( e.structure ) chk( -e.structure, "structure" );
        if( e.xform > 0 && e.xform <= maxSeq && d.ents[e.xform / 2].type != 124 ) d.bad( strf( "DE %d: transform is an entity of type %d", e.seq, d.ents[e.xform / 2].type ) );
        if( e.color < 0 && -e.color <= maxSeq && d.ents[-e.color / 2].type != 314 ) d.bad( strf( "DE %d: color is an entity of type %d", e.seq, d.ents[-e.color / 2].type ) );
    }
    return d.problems.empty();
}

// ---------------------------------------------------------------- writer

static std::string fmtReal( double v, Src& s, bool foreign )
{
    char b[64];
    if( !foreign ) { snprintf( b, sizeof b, "%.16E", v ); return b; }
    if( v == 0.0 ) { static const char* z[] = { "0.", "0.0", "0", ".0", "0.E0", "-0.0", "0.0D0" }; return z[s.draw( 7 )]; }
    if( v == floor( v ) && fabs( v ) < 1e6 )
        switch( s.draw( 5 ) )
        {
        case 0: snprintf( b, sizeof b, "%.1f", v ); return b;
        case 1: snprintf( b, sizeof b, "%.0f.", v ); return b;
        case 2: snprintf( b, sizeof b, "%.0f", v ); return b;
        case 3: snprintf( b, sizeof b, "%.0f.E0", v ); return b;
        default: break;
        }
    snprintf( b, sizeof b, "%.17g", v );
    std::string t = b;
    size_t e = t.find( 'e' );
    switch( s.draw( 5 ) )
    {
    case 0: break;
    case 1: snprintf( b, sizeof b, "%.17E", v ); t = b; break;
    case 2: snprintf( b, sizeof b, "%.17E", v ); t = b; t[t.find( 'E' )] = 'D'; break;
    case 3: if( v > 0 ) t = "+" + t; break;
    case 4: if( t.compare( 0, 2, "0." ) == 0 ) t = t.substr( 1 ); else if( t.compare( 0, 3, "-0." ) == 0 ) t = "-" + t.substr( 2 ); break;
    }
    e = t.find( 'e' );
    if( e != std::string::npos ) t[e] = 'E';
    if( t.find( '.' ) == std::string::npos ) { e = t.find( 'E' ); if( e == std::string::npos ) t += "."; else t.insert( e, "." ); }
    return t;
}

// signs and leading zeros have no meaning
static std::string fmtInt( long v, Src& s, bool foreign )
{
    std::string t = strf( "%ld", v < 0 ? -v : v );
    int k = foreign ? s.weighted( { 20, 1, 2 } ) : 0;
    if( k == 2 ) t = std::string( s.range( 1, 3 ), '0' ) + t;
    return ( v < 0 ? "-" : k == 1 && v > 0 ? "+" : "" ) + t;
}

static std::string fmtVal( const Val& v, Src& s, bool foreign )
{
    switch( v.k )
    {
    case Val::OMIT: return "";
    case Val::INT: return fmtInt( v.i, s, foreign );
    case Val::REAL: return fmtReal( v.r, s, foreign );
    case Val::STR: return hstr( v.s );
    case Val::PTR: return v.i < 0 ? fmtInt( 0, s, foreign ) : fmtInt( 2 * v.i + 1, s, foreign );
    case Val::NPTR: return fmtInt( -( 2 * v.i + 1 ), s, foreign );
    }
    return "";
}

// lay tokens out on lines of the given width; only strings may be broken
static std::vector<std::string> layout( const std::vector<std::string>& toks, const std::vector<bool>& isStr, char pd, char rd, size_t width, Src& s, bool foreign )
{
    std::vector<std::string> out; std::string cur;
    bool early = foreign && s.chance( 1, 3 );
    bool spaces = foreign && s.chance( 1, 3 );
    for( size_t i = 0; i < toks.size(); ++i )
    {
        std::string t = toks[i];
        char del = i + 1 == toks.size() ? rd : pd;
        if( spaces && i >= 2 && s.chance( 1, 4 ) && !t.empty() && cur.size() + t.size() + 3 < width ) cur += " ";
        if( isStr[i] )
        {
            // the count and the H stay together with at least the line; the characters flow freely
            size_t h = t.find( 'H' );
            size_t need = h + 1;
            if( cur.size() + need > width ) { out.push_back( cur ); cur.clear(); }
            t += del;
            for( char c : t ) { if( cur.size() == width ) { out.push_back( cur ); cur.clear(); } cur += c; }
        }
        else
        {
            t += del;
            if( cur.size() + t.size() > width || ( early && !cur.empty() && s.chance( 1, 8 ) ) ) { out.push_back( cur ); cur.clear(); }
            cur += t;
        }
    }
    out.push_back( cur );
    return out;
}

static std::string padTo( std::string s, size_t n ) { if( s.size() > n ) s.resize( n ); s.append( n - s.size(), ' ' ); return s; }

std::string writeIges( const std::vector<std::string>& start, const GlobalVals& g, const std::vector<AEnt>& ents, Src& s, bool foreign )
{
    std::string nl = foreign && s.chance( 1, 4 ) ? "\r\n" : "\n";
    std::string out;
    int ns = 0, ng = 0, nd = 0, np = 0;
    std::vector<std::string> st = start; if( st.empty() ) st.push_back( "" );
    for( auto& l : st ) out += padTo( l, 72 ) + strf( "S%7d", ++ns ) + nl;
    {
        std::vector<std::string> t; std::vector<bool> q;
        auto S = [&]( const std::string& v ) { t.push_back( hstr( v ) ); q.push_back( !v.empty() ); };
        auto I = [&]( int v ) { t.push_back( fmtInt( v, s, foreign ) ); q.push_back( false ); };
        auto R = [&]( double v ) { t.push_back( fmtReal( v, s, foreign ) ); q.push_back( false ); };
        bool omitD = g.pd == ',' && g.rd == ';' && foreign && s.flip();
        if( omitD ) { t.push_back( "" ); t.push_back( "" ); q.push_back( false ); q.push_back( false ); }
        else { t.push_back( std::string( "1H" ) + g.pd ); t.push_back( std::string( "1H" ) + g.rd ); q.push_back( true ); q.push_back( true ); }
        S( g.productS ); S( g.fileName ); S( g.nativeSys ); S( g.preproc ); I( g.intBits ); I( g.fmax ); I( g.fsig ); I( g.dmax ); I( g.dsig );
        S( g.productR ); R( g.scale ); I( g.unit ); S( g.unitName ); I( g.gradations ); R( g.maxLW ); S( g.created ); R( g.minRes ); R( g.maxCoord );
        S( g.author ); S( g.org ); I( g.version ); I( g.draft ); S( g.modified ); S( g.note );
        for( int k : g.omit ) if( k >= 1 && k <= (int)t.size() ) { t[k - 1] = ""; q[k - 1] = false; }
        if( g.cut ) while( t.back().empty() ) { t.pop_back(); q.pop_back(); }
        for( auto& l : layout( t, q, g.pd, g.rd, 72, s, foreign ) ) out += padTo( l, 72 ) + strf( "G%7d", ++ng ) + nl;
    }
    std::string P, D;
    for( size_t i = 0; i < ents.size(); ++i )
    {
        const AEnt& e = ents[i];
        std::vector<std::string> t; std::vector<bool> q;
        t.push_back( strf( "%d", e.type ) ); q.push_back( false );
        for( auto& v : e.params ) { t.push_back( fmtVal( v, s, foreign ) ); q.push_back( v.k == Val::STR && !v.s.empty() ); }
        if( e.assoc.size() || e.props.size() )
        {
            t.push_back( strf( "%zu", e.assoc.size() ) ); q.push_back( false );
            for( int a : e.assoc ) { t.push_back( strf( "%d", 2 * a + 1 ) ); q.push_back( false ); }
            if( e.props.size() )
            {
                t.push_back( strf( "%zu", e.props.size() ) ); q.push_back( false );
                for( int a : e.props ) { t.push_back( strf( "%d", 2 * a + 1 ) ); q.push_back( false ); }
            }
        }
        int first = np + 1, seq = (int)( 2 * i + 1 );
        auto ls = layout( t, q, g.pd, g.rd, 64, s, foreign );
        for( auto& l : ls ) P += padTo( l, 64 ) + strf( "%8d", seq ) + strf( "P%7d", ++np ) + nl;
        for( auto& c : e.comments ) P += padTo( c, 64 ) + strf( "%8d", seq ) + strf( "P%7d", ++np ) + nl;
        auto dp = []( int idx ) { return idx < 0 ? 0 : 2 * idx + 1; };
        bool zeros = foreign && s.chance( 1, 4 );
        auto f8 = [&]( int v ) { return v == 0 && zeros ? std::string( 8, ' ' ) : strf( "%8d", v ); };
        D += strf( "%8d%8d", e.type, first ) + f8( -dp( e.structEnt ) ) + f8( e.lfpEnt >= 0 ? -dp( e.lfpEnt ) : e.lfp ) + f8( e.levelEnt >= 0 ? -dp( e.levelEnt ) : e.level )
             + f8( dp( e.viewEnt ) ) + f8( dp( e.xform ) ) + f8( dp( e.lassocEnt ) ) + strf( "%02d%02d%02d%02d", e.blank, e.dep, e.use, e.hier ) + strf( "D%7d", ++nd ) + nl;
        D += strf( "%8d", e.type ) + f8( e.lw ) + f8( e.colorEnt >= 0 ? -dp( e.colorEnt ) : e.color ) + strf( "%8d", np - first + 1 ) + f8( e.form )
             + std::string( 16, ' ' ) + ( foreign && s.flip() ? padTo( e.label, 8 ) : strf( "%8s", e.label.c_str() ) ) + f8( e.subscript ) + strf( "D%7d", ++nd ) + nl;
    }
    out += D + P + padTo( strf( "S%7dG%7dD%7dP%7d", ns, ng, nd, np ), 72 ) + "T      1" + nl;
    return out;
}

std::string describe( const AEnt& e, int idx )
{
    std::string o = strf( "#%d type %d form %d", idx, e.type, e.form );
    if( e.dead ) o += " (dropped)";
    if( e.label.size() ) o += " label=" + e.label;
    if( e.subscript ) o += strf( " sub=%d", e.subscript );
    if( e.lfp || e.level || e.lw || e.color ) o += strf( " lfp=%d level=%d lw=%d color=%d", e.lfp, e.level, e.lw, e.color );
    if( e.xform >= 0 ) o += strf( " xform=#%d", e.xform );
    if( e.colorEnt >= 0 ) o += strf( " color=#%d", e.colorEnt );
    if( e.blank || e.dep || e.use || e.hier ) o += strf( " status=%d/%d/%d/%d", e.blank, e.dep, e.use, e.hier );
    o += " (";
    for( size_t i = 0; i < e.params.size(); ++i )
    {
        const Val& v = e.params[i];
        if( i ) o += ",";
        if( o.size() > 600 ) { o += "..."; break; }
        switch( v.k ) { case Val::OMIT: break; case Val::INT: o += strf( "%ld", v.i ); break; case Val::REAL: o += strf( "%.10g", v.r ); break;
        case Val::STR: o += "'" + v.s + "'"; break; case Val::PTR: o += strf( "#%ld", v.i ); break; case Val::NPTR: o += strf( "-#%ld", v.i ); break; }
    }
    o += ")";
    for( int p : e.props ) o += strf( " prop=#%d", p );
    for( int p : e.assoc ) o += strf( " assoc=#%d", p );
    for( auto& c : e.comments ) o += " /" + c + "/";
    return o;
}
std::string describe( const std::vector<AEnt>& v )
{
    std::string o; for( size_t i = 0; i < v.size(); ++i ) o += describe( v[i], (int)i ) + "\n"; return o;
}

static std::string trimBoth( const std::string& s )
{
    size_t a = s.find_first_not_of( ' ' ), b = s.find_last_not_of( ' ' );
    return a == std::string::npos ? "" : s.substr( a, b - a + 1 );
}

std::string compareDoc( const std::vector<AEnt>& model, const PDoc& d, bool checkLabels )
{
    std::vector<int> map( model.size(), -1 );
    int n = 0;
    for( size_t i = 0; i < model.size(); ++i ) if( !model[i].dead ) map[i] = n++;
    if( n != (int)d.ents.size() )
    {
        std::string o = strf( "%d entities expected, %zu in the file:", n, d.ents.size() );
        for( auto& e : d.ents ) o += strf( " %d", e.type );
        return o;
    }
    auto dp = [&]( int idx ) { return idx < 0 || map[idx] < 0 ? 0 : 2 * map[idx] + 1; };
    for( size_t i = 0; i < model.size(); ++i )
    {
        if( map[i] < 0 ) continue;
        const AEnt& m = model[i]; const PEnt& e = d.ents[map[i]];
        std::string w = strf( "entity #%zu (DE %d, type %d): ", i, e.seq, m.type );
#define CK( a, b, name ) if( ( a ) != ( b ) ) return w + strf( "%s is %d, expected %d", name, (int)( a ), (int)( b ) )
        CK( e.type, m.type, "type" ); CK( e.form, m.form, "form" );
        CK( e.blank, m.blank, "blank status" ); CK( e.dep, m.dep, "subordinate switch" ); CK( e.use, m.use, "use flag" ); CK( e.hier, m.hier, "hierarchy" );
        CK( e.lw, m.lw, "line weight" );
        CK( e.xform, dp( m.xform ), "transform pointer" );
        CK( e.color, m.colorEnt >= 0 ? -dp( m.colorEnt ) : m.color, "color" );
        CK( e.lfp, m.lfpEnt >= 0 ? -dp( m.lfpEnt ) : m.lfp, "line font" );
        CK( e.level, m.levelEnt >= 0 ? -dp( m.levelEnt ) : m.level, "level" );
        CK( e.view, dp( m.viewEnt ), "view pointer" ); CK( e.lassoc, dp( m.lassocEnt ), "label pointer" ); CK( e.structure, -dp( m.structEnt ), "structure pointer" );
        CK( e.subscript, m.subscript, "subscript" );
        if( checkLabels && trimBoth( e.label ) != trimBoth( m.label ) ) return w + "label is '" + e.label + "', expected '" + m.label + "'";
        size_t k = 1;
        for( size_t j = 0; j < m.params.size(); ++j, ++k )
        {
            Tok t; t.str = false; if( k < e.params.size() ) t = e.params[k];
            const Val& v = m.params[j];
            std::string wp = w + strf( "parameter %zu ", j + 1 );
            long iv; double rv;
            switch( v.k )
            {
            case Val::OMIT: break;
            case Val::INT: if( !tokInt( t, iv ) || iv != v.i ) return wp + "is '" + t.s + strf( "', expected %ld", v.i ); break;
            case Val::PTR: case Val::NPTR:
            {
                long ex = v.i < 0 ? 0 : ( map[v.i] < 0 ? 0 : 2 * map[v.i] + 1 ); if( v.k == Val::NPTR ) ex = -ex;
                if( t.empty() && ex == 0 ) break;
                if( !tokInt( t, iv ) || iv != ex ) return wp + "is '" + t.s + strf( "', expected pointer %ld", ex ); break;
            }
            case Val::REAL:
                if( t.empty() ) return wp + strf( "is omitted, expected %.17g", v.r );
                if( !tokReal( t, rv, false ) ) return wp + "is '" + t.s + "', which is not a number";
                if( !( fabs( rv - v.r ) <= v.tol ) ) return wp + "is '" + t.s + strf( "', expected %.17g within %g", v.r, v.tol );
                break;
            case Val::STR:
                if( v.s.empty() ? !( t.empty() || ( t.str && t.s.empty() ) ) : ( !t.str || t.s != v.s ) ) return wp + "is '" + t.s + "', expected string '" + v.s + "'";
                break;
            }
        }
        // trailing pointer groups
        auto group = [&]( const std::vector<int>& g, const char* name ) -> std::string {
            std::vector<long> ex; for( int x : g ) if( map[x] >= 0 ) ex.push_back( 2 * map[x] + 1 );
            long cnt = 0;
            if( k < e.params.size() && !e.params[k].empty() && !tokInt( e.params[k], cnt ) ) return w + std::string( name ) + " count is '" + e.params[k].s + "'";
            if( k < e.params.size() ) ++k;
            if( cnt != (long)ex.size() ) return w + strf( "has %ld %s pointers, expected %zu", cnt, name, ex.size() );
            std::vector<long> got;
            for( long q = 0; q < cnt; ++q, ++k ) { long iv = 0; if( k >= e.params.size() || !tokInt( e.params[k], iv ) ) return w + name + " pointer malformed"; got.push_back( iv ); }
            std::sort( got.begin(), got.end() ); std::sort( ex.begin(), ex.end() );
            if( got != ex ) return w + name + " pointers differ";
            return "";
        };
        std::string r = group( m.assoc, "associativity" ); if( r.size() ) return r;
        r = group( m.props, "property" ); if( r.size() ) return r;
        if( k < e.params.size() && !( k + 1 == e.params.size() && e.params[k].empty() ) ) return w + strf( "%zu surplus parameters", e.params.size() - k );
        if( e.comments != m.comments )
        {
            std::string o = w + "comments are"; for( auto& c : e.comments ) o += " /" + c + "/"; o += ", expected"; for( auto& c : m.comments ) o += " /" + c + "/"; return o;
        }
    }
    return "";
}
