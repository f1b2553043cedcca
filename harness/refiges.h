// Independent model of an IGES fixed-format file (IGES 5.3 section 2): a strict parser which reports
// every departure from the format, and a writer which produces any legal layout of the same data.
#ifndef REFIGES_H
#define REFIGES_H
#include "pbt.h"

struct Val
{
    enum K { OMIT, INT, REAL, STR, PTR, NPTR } k;
    long i; double r; std::string s;
    double tol;                 // absolute tolerance for REAL
    Val() : k( OMIT ), i( 0 ), r( 0 ), tol( 0 ) {}
    static Val I( long v ) { Val x; x.k = INT; x.i = v; return x; }
    static Val R( double v, double tol ) { Val x; x.k = REAL; x.r = v; x.tol = tol; return x; }
    static Val S( const std::string& v ) { Val x; x.k = STR; x.s = v; return x; }
    static Val P( int idx ) { Val x; x.k = PTR; x.i = idx; return x; }          // index into ents, -1 = null
    static Val N( int idx ) { Val x; x.k = NPTR; x.i = idx; return x; }         // negated pointer
};

struct AEnt
{
    int type = 0, form = 0;
    int lfp = 0, level = 0, lw = 0, color = 0;
    int xform = -1, colorEnt = -1, structEnt = -1, viewEnt = -1, lassocEnt = -1, levelEnt = -1, lfpEnt = -1;
    int blank = 0, dep = 0, use = 0, hier = 0;
    std::string label; int subscript = 0;
    std::vector<Val> params;
    std::vector<int> assoc, props;      // optional trailing pointers
    std::vector<std::string> comments;
    bool dead = false;                  // expected to be dropped (culled)
};

struct Tok { bool str; std::string s; bool empty() const { return !str && s.empty(); } };

struct PEnt
{
    int type, pd, structure, lfp, level, view, xform, lassoc, blank, dep, use, hier, seq, lw, color, nlines, form, subscript;
    std::string label;
    std::vector<Tok> params;            // includes the leading entity type number
    std::vector<std::string> comments;
};

struct PDoc
{
    std::vector<std::string> start;
    std::vector<Tok> globals;
    char pd = ',', rd = ';';
    std::vector<PEnt> ents;
    std::vector<std::string> problems;
    void bad( const std::string& s ) { if( problems.size() < 8 ) problems.push_back( s ); }
};

bool parseIges( const std::string& text, PDoc& d );

// numeric readers for tokens
bool tokInt( const Tok& t, long& v );
bool tokReal( const Tok& t, double& v, bool strict );

struct GlobalVals
{
    char pd = ',', rd = ';';
    std::string productS = "part", fileName = "file.igs", nativeSys = "sys", preproc = "pre";
    int intBits = 32, fmax = 38, fsig = 6, dmax = 308, dsig = 15;
    std::string productR = "part";
    double scale = 1.0; int unit = 2; std::string unitName = "MM";
    int gradations = 1; double maxLW = 0.1; std::string created = "20200101.120000";
    double minRes = 1e-8, maxCoord = 0.0;
    std::string author = "a", org = "o"; int version = 11, draft = 0;
    std::string modified = "20200101.120000", note = "";
    std::set<int> omit;             // numbers of global parameters which are left out (defaulted) in the file
    bool cut = false;               // end the record after the last parameter which is given
};

struct Layout               // choices made by the writer
{
    bool explicitDelims = true;
    bool crlf = false;
    int maxCol = 64;        // parameter columns to use
    bool breakAnywhere = false;
};

std::string writeIges( const std::vector<std::string>& start, const GlobalVals& g, const std::vector<AEnt>& ents, Src& s, bool foreignStyle );

std::string hstr( const std::string& s );
std::string describe( const AEnt& e, int idx );
std::string describe( const std::vector<AEnt>& v );

// compare a parsed document with the model; map[i] = position of model entity i in the document, or -1
std::string compareDoc( const std::vector<AEnt>& model, const PDoc& d, bool checkLabels = true );
#endif
