// Independent model of IDF board and library files: generator, writer and strict reader of the text.
#ifndef IDFMODEL_H
#define IDFMODEL_H
#include "pbt.h"
#include "region2d.h"
namespace idf
{
struct Row { double x, y, a; };
typedef std::vector<Row> Rows;                  // a circle: centre, then a point with 360
struct Sec                                      // an outline section
{
    std::string kind, owner = "UNOWNED", id, side; bool hasH = false; double h = 0;
    std::vector<std::string> com; std::vector<Rows> loops; std::vector<int> index;
};
struct Drill { double d, x, y; bool pth = true; std::string ref, type, owner = "UNOWNED"; };
struct Note { double x, y, h, l; std::string t; };
struct Place { std::string geom, part, ref; double x, y, z = 0, rot; std::string side, st; };
struct Part
{
    bool elec = true; std::string geom, part, unit; double h; std::vector<std::string> com;
    std::vector<Rows> loops; std::vector<int> index; std::vector<std::pair<std::string, std::string> > props;
};
struct Board
{
    int ver = 3; std::string unit = "MM", src, date, name; int fver = 0;
    Sec board; std::vector<Sec> secs; std::vector<Drill> drills; std::vector<Note> notes; std::vector<Place> places;
    std::vector<std::string> dcom, ncom, pcom; bool hasDrills = false, hasNotes = false, hasPlaces = false;
};
struct Lib { int ver = 3; std::string src, date; int fver = 0; std::vector<Part> parts; };

inline double mm( const std::string& u ) { return u == "MM" ? 1 : u == "THOU" ? 0.0254 : 1e-5; }
// text of a file; s chooses the freedom the format leaves (spacing, letter case, quotes, blank lines, line ends)
std::string emit( const Board& b, Src& s ), emit( const Lib& l, Src& s );
// strict readers of files as the library writes them; throw Failure
Board parseBoard( const std::string& t ); Lib parseLib( const std::string& t );
// rows of a simple loop, in file units; empty when the rounding destroys it
Rows rows( const g2::Loop& l, const std::string& unit, int start );
g2::Loop loopOf( const Rows& r, double scale );
// clockwise if cw
Rows genRows( Src& s, const std::string& unit, g2::P c, double r, bool cw, int kind = -1 );
Board genBoard( Src& s, Lib* lib );
std::string str( double v );                    // shortest text
std::string str( const Row& r ); std::string str( const Sec& x ); std::string str( const Place& p ); std::string str( const Drill& d ); std::string str( const Part& p );
}
#endif
