#include "pbt.h"
#include <memory>
#include <cstring>
#include <libigesconf.h>
#include <geom/mcad_utils.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

// C09: path names, against a model which keeps nothing but the full path
namespace
{
struct Ref
{
    std::string p;
    static std::string native( std::string s ) { for( auto& c : s ) if( c == '\\' ) c = '/'; return s; }
    std::string last() const { size_t i = p.rfind( '/' ); return i == std::string::npos ? p : p.substr( i + 1 ); }
    bool ext( std::string& e ) const { std::string l = last(); size_t d = l.rfind( '.' ); if( d == std::string::npos || d == 0 ) return false; e = l.substr( d + 1 ); return true; }
    std::string base() const { std::string l = last(), e; return ext( e ) ? l.substr( 0, l.size() - e.size() - 1 ) : l; }
};
std::string str( const char* p ) { return p ? std::string( "'" ) + p + "'" : "NULL"; }
std::string q( const std::string& s ) { return "'" + s + "'"; }

std::string piece( Src& s )
{
    static const std::vector<std::string> parts{ "a", "b.c", "board", ".", "..", ".hid", "x.", "a.b.c", "sp ace", "", "igs", ".emn", "\xc3\xa9.igs", "long-name_1" };
    return s.pick( parts );
}
std::string path( Src& s )
{
    std::string o; if( s.chance( 1, 3 ) ) o = s.flip() ? "/" : "\\";
    int n = s.range( 0, 3 );
    for( int i = 0; i < n; ++i ) o += piece( s ) + ( s.chance( 1, 4 ) ? "\\" : "/" );
    return o + piece( s );
}

void paths( Src& s, Ctx& c )
{
    Ref r; MCAD_FILEPATH* f; int used = 0;
    if( s.flip() ) { std::string a = path( s ); f = new MCAD_FILEPATH( a.c_str() ); r.p = Ref::native( a ); c.desc = "MCAD_FILEPATH( " + q( a ) + " )\n"; }
    else { f = new MCAD_FILEPATH; c.desc = "MCAD_FILEPATH()\n"; }
    std::unique_ptr<MCAD_FILEPATH> own( f );
    int n = s.range( 1, 12 );
    for( int i = 0; i < n; ++i )
    {
        switch( s.range( 0, 7 ) )
        {
        case 0: { std::string a = path( s ); c.desc += "SetPath( " + q( a ) + " )\n"; REQ( f->SetPath( a.c_str() ), "SetPath() fails" ); r.p = Ref::native( a ); ++used; break; }
        case 1:
        {
            std::string a = path( s ); c.desc += "Append( " + q( a ) + " )\n";
            REQ( f->Append( a.c_str() ), "Append() fails" );
            std::string b = Ref::native( a );
            if( !b.empty() && b != "/" ) { if( r.p.empty() ) r.p = b; else r.p += "/" + b; }
            ++used; break;
        }
        case 2:
        {
            std::string e = s.pick( std::vector<std::string>{ "igs", ".igs", "", "tar.gz", ".IGES", "e", "..x" } );
            c.desc += "SetExtension( " + q( e ) + " )\n";
            bool nul = e.empty() && s.flip();
            bool ok = f->SetExtension( nul ? NULL : e.c_str() );
            REQ( ok == !r.p.empty(), "SetExtension( " << q( e ) << " ) returns " << ok );
            if( ok )
            {
                std::string x; if( r.ext( x ) ) r.p.erase( r.p.size() - x.size() - 1 );
                if( !e.empty() ) r.p += ( e[0] == '.' ? "" : "." ) + e;
            }
            ++used; break;
        }
        case 3: { c.desc += "GetFullPath()\n"; const char* p = f->GetFullPath(); REQ( r.p.empty() ? p == NULL : p && r.p == p, "GetFullPath() is " << str( p ) << ", expected " << q( r.p ) ); break; }
        case 4: { c.desc += "GetFileName()\n"; const char* p = f->GetFileName(); REQ( r.p.empty() ? p == NULL : p && r.last() == p, "GetFileName() is " << str( p ) << ", expected " << q( r.last() ) << " of " << q( r.p ) ); break; }
        case 5: { c.desc += "GetBaseName()\n"; const char* p = f->GetBaseName(); REQ( r.p.empty() ? p == NULL : p && r.base() == p, "GetBaseName() is " << str( p ) << ", expected " << q( r.base() ) << " of " << q( r.p ) ); break; }
        case 6: { c.desc += "GetExtension()\n"; std::string e; bool h = r.ext( e ); const char* p = f->GetExtension(); REQ( h ? p && e == p : p == NULL, "GetExtension() is " << str( p ) << ", expected " << ( h ? q( e ) : "NULL" ) << " of " << q( r.p ) ); break; }
        case 7: REQ( f->GetPathSep() == '/', "GetPathSep()" ); break;
        }
    }
    const char* p = f->GetFullPath(); REQ( r.p.empty() ? p == NULL : p && r.p == p, "GetFullPath() is " << str( p ) << ", expected " << q( r.p ) );
    c.nontrivial = used >= 1 && n >= 4 && r.p.size() > 2;
}
PROPERTY( "C09", "model", "4 or more calls with at least one change of a path of 3 or more characters", 2000000, 40000000, paths );

void kinds( Src& s, Ctx& c )
{
    std::string dir = c.path( "k" ); mkdir( dir.c_str(), 0700 );
    static bool made = false; static std::string where;
    if( !made || where != dir )
    {
        mkdir( ( dir + "/dir" ).c_str(), 0700 ); mkdir( ( dir + "/dir.x" ).c_str(), 0700 );
        writeFile( dir + "/file", "x" ); writeFile( dir + "/file.igs", "" );
        mkfifo( ( dir + "/fifo" ).c_str(), 0600 );
        sockaddr_un a; memset( &a, 0, sizeof a ); a.sun_family = AF_UNIX;
        if( ( dir + "/sock" ).size() < sizeof a.sun_path ) { strcpy( a.sun_path, ( dir + "/sock" ).c_str() ); int fd = socket( AF_UNIX, SOCK_STREAM, 0 ); if( fd >= 0 ) { (void)!bind( fd, (sockaddr*)&a, sizeof a ); close( fd ); } }
        (void)!symlink( "file", ( dir + "/lfile" ).c_str() ); (void)!symlink( "dir", ( dir + "/ldir" ).c_str() ); (void)!symlink( "nowhere", ( dir + "/ldead" ).c_str() ); (void)!symlink( "/dev/null", ( dir + "/lnull" ).c_str() );
        made = true; where = dir;
    }
    struct K { const char* n; bool f, d; };
    static const std::vector<K> ks{ { "file", true, false }, { "dir", false, true }, { "file.igs", true, false }, { "dir.x", false, true }, { "fifo", false, false }, { "sock", false, false },
        { "lfile", true, false }, { "ldir", false, true }, { "ldead", false, false }, { "lnull", false, false }, { "none", false, false }, { "file/x", false, false }, { "dir/x", false, false }, { "dir/../file", true, false } };
    const K& k = s.pick( ks );
    MCAD_FILEPATH p;
    std::string pre;
    for( int i = s.range( 0, 2 ); i > 0; --i ) pre += s.flip() ? "dir/../" : "./";
    if( s.flip() ) p.SetPath( ( dir + "/" + pre + k.n ).c_str() ); else { p.SetPath( dir.c_str() ); p.Append( ( pre + k.n ).c_str() ); }
    c.desc = p.GetFullPath(); c.nontrivial = true; c.label( k.n );
    REQ( p.FileExists() == k.f, "FileExists() is " << p.FileExists() << " for " << k.n );
    REQ( p.DirExists() == k.d, "DirExists() is " << p.DirExists() << " for " << k.n );
    REQ( p.Exists() == ( k.f || k.d ), "Exists() is " << p.Exists() << " for " << k.n );
    MCAD_FILEPATH e; REQ( !e.Exists() && !e.FileExists() && !e.DirExists(), "an empty path exists" );
}
PROPERTY( "C09", "kinds", "every case", 50000, 500000, kinds );
}
