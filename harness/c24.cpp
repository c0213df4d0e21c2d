// C24: XML documents. A model tree, an independent emitter that knows where every node stands, and a walk over
// all node links observe the real parser, printer and editing operations; hostile bytes come in exact-size buffers.
#include "vh.h"
#include "tinyxml.h"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <deque>
#include <fstream>
#include <memory>
#include <sanitizer/allocator_interface.h>
#include <sstream>
#include <unistd.h>
using namespace vh;
static std::string scratch() { const char* e = getenv( "VERIF_SCRATCH" ); return e ? e : "."; }
static std::string slurp( const std::string& f ) { std::ifstream i( f.c_str(), std::ios::binary ); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit( const std::string& f, const std::string& s ) { std::ofstream o( f.c_str(), std::ios::binary ); o << s; }
static std::string fileName( const char* s ) { return scratch() + "/c24_" + std::to_string( getpid() ) + s; }

// ---------------------------------------------------------------- model
enum Kind { Elem, Comm, Unkn, Txt, Decl };
struct M
{
    Kind k = Elem; std::string v; bool cdata = false; std::vector< std::pair< std::string, std::string > > at; std::vector< M > ch;
    void* user = 0;
};
static std::string utf8( unsigned c )
{
    std::string s;
    if ( c < 0x80 ) s += char( c );
    else if ( c < 0x800 ) { s += char( 0xC0 | c >> 6 ); s += char( 0x80 | ( c & 63 ) ); }
    else if ( c < 0x10000 ) { s += char( 0xE0 | c >> 12 ); s += char( 0x80 | ( c >> 6 & 63 ) ); s += char( 0x80 | ( c & 63 ) ); }
    else { s += char( 0xF0 | c >> 18 ); s += char( 0x80 | ( c >> 12 & 63 ) ); s += char( 0x80 | ( c >> 6 & 63 ) ); s += char( 0x80 | ( c & 63 ) ); }
    return s;
}
static unsigned codepoint( Rng& r )
{
    for ( ;; )
    {
        unsigned c = 0;
        switch ( r.in( 0, 9 ) ) { case 0: c = r.in( 0xA1, 0x7FF ); break; case 1: c = r.in( 0x800, 0xFFFD ); break; case 2: c = r.in( 0x10000, 0x10FFFF ); break; default: c = r.in( 33, 126 ); }
        if ( ( c >= 0xD800 && c < 0xE000 ) || c == 0xFEFF || c >= 0x10FFFE || c == 0xFFFE || c == 0xFFFF ) continue;
        return c;
    }
}
static bool hasRef( const std::string& s ) { for ( size_t p = s.find( "&#x" ); p != std::string::npos; p = s.find( "&#x", p + 1 ) ) { size_t q = p + 3; while ( q < s.size() && isxdigit( (unsigned char)s[ q ] ) ) ++q; if ( q > p + 3 && q < s.size() && s[ q ] == ';' ) return true; } return false; }
// any text without literal character references; spaces single and inside only unless `spaces`
static std::string content( Rng& r, bool utf, int lo, int hi, bool spaces )
{
    for ( ;; )
    {
        std::string s; int n = r.in( lo, hi ); bool tricky = r.coin( 0.3 );
        for ( int i = 0; i < n; ++i )
        {
            int w = r.in( 0, 19 );
            if ( w < 4 ) s += r.pick( std::vector< std::string >{ "<", ">", "&", "\"", "'" } );
            else if ( w == 4 ) s += char( r.in( 1, 31 ) );
            else if ( w == 5 && tricky ) s += r.pick( std::vector< std::string >{ "&amp;", "&lt", "&#65;", "]]>", "-->", "<!--", "<![CDATA[", "?>", "</a>", "&#", "&#x", "&#x41", "&#xZ;", "&bogus;", "/>", "%s%n", "&#x2" } );
            else if ( w == 6 ) { if ( spaces ) s += std::string( r.in( 1, 3 ), ' ' ); else if ( !s.empty() && s[ s.size() - 1 ] != ' ' ) s += ' '; }
            else if ( utf ) s += utf8( codepoint( r ) );
            else { int c = r.in( 33, 255 ); s += char( c ); }
        }
        if ( !spaces ) while ( !s.empty() && s[ s.size() - 1 ] == ' ' ) s.resize( s.size() - 1 );
        if ( hasRef( s ) ) continue;
        return s;
    }
}
static bool blank( const std::string& s ) { for ( char c : s ) if ( !isspace( (unsigned char)c ) ) return false; return true; }
static std::string name( Rng& r, bool utf )
{
    std::string s; s += r.pick( std::vector< char >{ 'a', 'b', 'Z', '_', 'q' } );
    for ( int i = r.in( 0, 6 ); i > 0; --i ) if ( r.coin( 0.15 ) && utf ) s += utf8( r.in( 0xC0, 0x1FFF ) ); else s += r.pick( std::vector< char >{ 'a', 'b', '1', '0', '-', '.', ':', '_', 'X' } );
    return s;
}
// text of comments and sections, printed as it is
static std::string raw( Rng& r, bool utf, const char* const* bad, int lo, int hi )
{
    for ( ;; )
    {
        std::string s; for ( int i = r.in( lo, hi ); i > 0; --i ) if ( utf && r.coin( 0.2 ) ) s += utf8( codepoint( r ) ); else s += char( r.coin( 0.1 ) ? '\n' : r.in( 32, 126 ) );
        bool no = false; for ( const char* const* b = bad; *b; ++b ) if ( s.find( *b ) != std::string::npos ) no = true;
        if ( no ) continue;
        return s;
    }
}
static const char* const badComment[] = { "--", 0 }; static const char* const badCdata[] = { "]]>", 0 }; static const char* const badUnknown[] = { ">", "<", "[", 0 };
static M comment( Rng& r, bool utf ) { M m; m.k = Comm; m.v = raw( r, utf, badComment, 0, 20 ); if ( !m.v.empty() && ( m.v[ m.v.size() - 1 ] == '-' || m.v[ 0 ] == '>' ) ) m.v = " " + m.v + " "; return m; }
static M unknown( Rng& r, bool utf ) { M m; m.k = Unkn; m.v = "!" + std::string( r.coin() ? "DOCTYPE " : "Z" ) + raw( r, utf, badUnknown, 0, 12 ); return m; }
struct Gen { bool utf, condense; int budget; bool mixed; };
static M element( Rng& r, Gen& g, int depth )
{
    M m; m.v = name( r, g.utf );
    for ( int i = r.coin( 0.5 ) ? r.in( 0, 4 ) : 0; i > 0; --i )
    {
        std::string n = name( r, g.utf ); bool dup = false; for ( auto& a : m.at ) if ( a.first == n ) dup = true;
        if ( !dup ) m.at.push_back( { n, content( r, g.utf, 0, 12, true ) } );
    }
    auto txt = [ & ]() { M t; t.k = Txt; do t.v = content( r, g.utf, 1, 20, !g.condense ); while ( blank( t.v ) ); return t; };
    auto cd = [ & ]() { M t; t.k = Txt; t.cdata = true; t.v = raw( r, g.utf, badCdata, 0, 16 ); return t; };
    if ( depth <= 0 || g.budget <= 0 ) return m;
    if ( r.coin( 0.3 ) ) { m.ch.push_back( r.coin( 0.8 ) ? txt() : cd() ); return m; }
    bool lastText = false;
    for ( int i = r.in( 0, 4 ); i > 0 && g.budget > 0; --i )
    {
        --g.budget;
        int w = r.in( 0, 9 );
        if ( w < 5 ) { m.ch.push_back( element( r, g, depth - 1 ) ); lastText = false; }
        else if ( w == 5 ) { m.ch.push_back( comment( r, g.utf ) ); lastText = false; }
        else if ( w == 6 ) { m.ch.push_back( unknown( r, g.utf ) ); lastText = false; }
        else if ( w == 7 ) { m.ch.push_back( cd() ); lastText = false; }
        else if ( !lastText && g.mixed ) { m.ch.push_back( txt() ); lastText = true; }
    }
    return m;
}
static std::string kstr( const M& m )
{
    std::string s = m.k == Elem ? "E" : m.k == Comm ? "C" : m.k == Unkn ? "U" : m.k == Decl ? "D" : m.cdata ? "X" : "T";
    s += "'" + m.v + "'"; for ( auto& a : m.at ) s += " " + a.first + "=[" + a.second + "]";
    if ( !m.ch.empty() ) { s += "{"; for ( auto& c : m.ch ) s += kstr( c ) + ","; s += "}"; }
    return s;
}
static M declaration( Rng& r, const char* enc )
{
    M m; m.k = Decl; m.at.push_back( { "version", r.coin( 0.9 ) ? "1.0" : "" } ); m.at.push_back( { "encoding", enc } ); m.at.push_back( { "standalone", r.coin( 0.3 ) ? "yes" : "" } ); return m;
}
// ---------------------------------------------------------------- real tree
static TiXmlNode* build( const M& m, bool stl )
{
    TiXmlNode* n = 0;
    if ( m.k == Elem )
    {
        TiXmlElement* e = stl ? new TiXmlElement( m.v ) : new TiXmlElement( m.v.c_str() );
        for ( auto& a : m.at ) if ( stl ) e->SetAttribute( a.first, a.second ); else e->SetAttribute( a.first.c_str(), a.second.c_str() );
        n = e;
    }
    else if ( m.k == Comm ) { if ( stl ) { n = new TiXmlComment(); n->SetValue( m.v ); } else n = new TiXmlComment( m.v.c_str() ); }
    else if ( m.k == Unkn ) { n = new TiXmlUnknown(); n->SetValue( m.v ); }
    else if ( m.k == Txt ) { TiXmlText* t = stl ? new TiXmlText( m.v ) : new TiXmlText( m.v.c_str() ); t->SetCDATA( m.cdata ); n = t; }
    else n = stl ? new TiXmlDeclaration( m.at[ 0 ].second, m.at[ 1 ].second, m.at[ 2 ].second ) : new TiXmlDeclaration( m.at[ 0 ].second.c_str(), m.at[ 1 ].second.c_str(), m.at[ 2 ].second.c_str() );
    n->SetUserData( m.user );
    for ( auto& c : m.ch ) if ( stl ) n->LinkEndChild( build( c, stl ) ); else { std::unique_ptr< TiXmlNode > k( build( c, stl ) ); n->InsertEndChild( *k ); }
    return n;
}
static M readNode( const TiXmlNode* n )
{
    M m; m.user = const_cast< TiXmlNode* >( n )->GetUserData();
    if ( const TiXmlElement* e = n->ToElement() ) { m.k = Elem; m.v = e->ValueStr(); for ( const TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next() ) m.at.push_back( { a->NameTStr(), a->ValueStr() } ); }
    else if ( n->ToComment() ) { m.k = Comm; m.v = n->ValueStr(); }
    else if ( n->ToUnknown() ) { m.k = Unkn; m.v = n->ValueStr(); }
    else if ( const TiXmlText* t = n->ToText() ) { m.k = Txt; m.v = n->ValueStr(); m.cdata = t->CDATA(); }
    else if ( const TiXmlDeclaration* d = n->ToDeclaration() ) { m.k = Decl; m.at = { { "version", d->Version() }, { "encoding", d->Encoding() }, { "standalone", d->Standalone() } }; }
    for ( const TiXmlNode* c = n->FirstChild(); c; c = c->NextSibling() ) m.ch.push_back( readNode( c ) );
    return m;
}
// every link of the tree below n is consistent
static bool links( const char* key, const TiXmlNode* n, const TiXmlDocument* doc, uint64_t& nodes, int depth = 0 )
{
    std::string bad; const TiXmlNode* prev = 0;
    if ( n->GetDocument() != doc ) bad = "document";
    for ( const TiXmlNode* c = n->FirstChild(); c; c = c->NextSibling() )
    {
        ++nodes;
        if ( c->Parent() != n ) bad = "parent of a child";
        if ( c->PreviousSibling() != prev ) bad = "previous sibling";
        if ( c->ToDocument() ) bad = "document inside a tree";
        prev = c;
        if ( bad.empty() && !links( key, c, doc, nodes, depth + 1 ) ) return false;
    }
    if ( n->LastChild() != prev ) bad = "last child";
    if ( n->NoChildren() != ( prev == 0 ) ) bad = "no children";
    int kinds = !!n->ToDocument() + !!n->ToElement() + !!n->ToComment() + !!n->ToUnknown() + !!n->ToText() + !!n->ToDeclaration();
    if ( kinds != 1 ) bad = "kind";
    if ( n->Type() != ( n->ToDocument() ? TiXmlNode::DOCUMENT : n->ToElement() ? TiXmlNode::ELEMENT : n->ToComment() ? TiXmlNode::COMMENT : n->ToUnknown() ? TiXmlNode::UNKNOWN : n->ToText() ? TiXmlNode::TEXT : TiXmlNode::DECLARATION ) ) bad = "type";
    if ( const TiXmlElement* e = n->ToElement() )
    {
        const TiXmlAttribute* p = 0; std::set< std::string > names;
        for ( const TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next() )
        {
            if ( a->Previous() != p ) bad = "previous attribute";
            if ( !names.insert( a->NameTStr() ).second ) bad = "attribute twice";
            if ( a->NameTStr().find( '\0' ) == std::string::npos && e->Attribute( a->NameTStr() ) != &a->ValueStr() ) bad = "attribute lookup";
            p = a;
        }
        if ( e->LastAttribute() != p ) bad = "last attribute";
    }
    return ok( key, bad.empty(), "inconsistent " + bad );
}
static bool same( const M& a, const M& b, bool user = false )
{
    if ( a.k != b.k || a.v != b.v || a.cdata != b.cdata || a.at != b.at || a.ch.size() != b.ch.size() || ( user && a.user != b.user ) ) return false;
    for ( size_t i = 0; i < a.ch.size(); ++i ) if ( !same( a.ch[ i ], b.ch[ i ], user ) ) return false;
    return true;
}
struct Condense { Condense( bool b ) { TiXmlBase::SetCondenseWhiteSpace( b ); } ~Condense() { TiXmlBase::SetCondenseWhiteSpace( true ); } };
static const char* const encNames[] = { "UTF-8", "utf8", "ISO-8859-1", "" };
struct Doc { std::vector< M > top; bool utf, decl; TiXmlEncoding enc; };
static Doc document( Rng& r, bool condense, bool mixed, int size )
{
    Doc d; d.decl = r.coin( 0.6 ); d.utf = r.coin( 0.7 ); d.enc = d.decl ? ( r.coin() ? TIXML_ENCODING_UNKNOWN : d.utf ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_LEGACY ) : ( d.utf ? TIXML_ENCODING_UTF8 : r.coin() ? TIXML_ENCODING_LEGACY : TIXML_ENCODING_UNKNOWN );
    if ( d.decl ) d.top.push_back( declaration( r, d.utf ? ( r.coin( 0.6 ) ? "UTF-8" : r.coin() ? "utf8" : "" ) : "ISO-8859-1" ) );
    Gen g{ d.utf, condense, size, mixed };
    if ( r.coin( 0.3 ) ) d.top.push_back( comment( r, d.utf ) );
    if ( r.coin( 0.3 ) ) d.top.push_back( unknown( r, d.utf ) );
    d.top.push_back( element( r, g, r.in( 0, 6 ) ) );
    return d;
}
static M treeOf( const std::vector< M >& top ) { M m; m.ch = top; return m; }
static M readDoc( const TiXmlDocument& d ) { M m; for ( const TiXmlNode* c = d.FirstChild(); c; c = c->NextSibling() ) m.ch.push_back( readNode( c ) ); return m; }
static void fill( TiXmlDocument& doc, const std::vector< M >& top, bool stl ) { for ( auto& m : top ) doc.LinkEndChild( build( m, stl ) ); }
static void checkTree( const char* key, const TiXmlDocument& doc, const std::vector< M >& top, const std::string& text )
{
    M got = readDoc( doc ), want = treeOf( top );
    ok( key, same( got, want ), "got " + kstr( got ).substr( 0, 500 ) + " want " + kstr( want ).substr( 0, 500 ) + ( doc.Error() ? fmt( " error %s at %d:%d", doc.ErrorDesc(), doc.ErrorRow(), doc.ErrorCol() ) : std::string() ) );
    ok( "no-error-on-printed-documents", !doc.Error(), std::string( doc.ErrorDesc() ) + " text " + text.substr( 0, 300 ) );
    uint64_t n = 0; links( "links-after-parsing", &doc, &doc, n ); event( "nodes-compared", n );
}
// ---------------------------------------------------------------- round trips
SECTION( "round-trip", 4000, 80000 )
{
    Watch w( "the-parser-terminates", 60 );
    Doc d = document( r, true, true, r.in( 0, 40 ) ); bool stl = r.coin();
    if ( idx % 50 == 0 ) { Gen g{ d.utf, true, 100000, true }; M e = element( r, g, 0 ); e.ch.clear(); M chain = e; for ( int i = r.in( 20, 400 ); i > 0; --i ) { M up = element( r, g, 0 ); up.ch.clear(); up.ch.push_back( chain ); chain = up; } d.top.back() = chain; event( "deep-documents" ); }
    TiXmlDocument doc; fill( doc, d.top, stl );
    checkTree( "built-tree", doc, d.top, "" );
    std::string f = fileName( ".xml" );
    // file
    ok( "saved", doc.SaveFile( f ) );
    std::string text = slurp( f );
    { TiXmlDocument b; ok( "loaded", b.LoadFile( f, d.enc ), b.ErrorDesc() ); checkTree( "file-round-trip", b, d.top, text ); }
    { TiXmlDocument b( f ); ok( "loaded", b.LoadFile( d.enc ), b.ErrorDesc() ); checkTree( "file-round-trip", b, d.top, text ); ok( "saved", b.SaveFile() ); ok( "same-text-again", slurp( f ) == text, text ); }
    { TiXmlDocument b; b.Parse( text.c_str(), 0, d.enc ); checkTree( "print-parse-round-trip", b, d.top, text ); }
    unlink( f.c_str() );
    // printer
    {
        TiXmlPrinter p; if ( r.coin() ) p.SetIndent( r.pick( std::vector< const char* >{ "", "\t", "  ", (const char*)0 } ) ); if ( r.coin( 0.3 ) ) p.SetLineBreak( r.pick( std::vector< const char* >{ "", "\r\n", "\n", (const char*)0 } ) );
        doc.Accept( &p ); ok( "printer-size", p.Size() == p.Str().size() && p.Str() == p.CStr() );
        TiXmlDocument b; b.Parse( p.CStr(), 0, d.enc ); checkTree( "printer-round-trip", b, d.top, p.Str() );
    }
    { std::string s; s << doc; TiXmlDocument b; b.Parse( s.c_str(), 0, d.enc ); checkTree( "string-round-trip", b, d.top, s ); }
    if ( d.decl || d.enc == TIXML_ENCODING_UNKNOWN || !d.utf )
    {
        std::stringstream s; s << doc; TiXmlDocument b; s >> b;
        checkTree( "stream-round-trip", b, d.top, s.str() );
    }
    if ( d.utf && r.coin( 0.3 ) )
    {
        std::string t = "\xEF\xBB\xBF" + text; TiXmlDocument b; b.Parse( t.c_str(), 0, TIXML_ENCODING_UNKNOWN ); checkTree( "byte-order-mark", b, d.top, t );
        ok( "saved", b.SaveFile( f ) ); ok( "byte-order-mark-kept", slurp( f ) == t ); unlink( f.c_str() );
    }
    if ( r.coin( 0.3 ) )
    { // line ends of other systems
        bool nl = text.find( '\n' ) != std::string::npos; std::string t; const char* le = r.coin() ? "\r\n" : "\r"; for ( char c : text ) if ( c == '\n' ) t += le; else t += c;
        spit( f, t ); TiXmlDocument b; b.LoadFile( f, d.enc ); checkTree( "other-line-ends", b, d.top, t ); unlink( f.c_str() ); if ( nl ) event( "line-ends-translated" );
    }
    // copies print the same
    { TiXmlDocument c( doc ); std::string a, b; a << doc; b << c; ok( "copy-prints-the-same", a == b ); TiXmlDocument e; e.LinkEndChild( new TiXmlElement( "old" ) ); e = doc; std::string g; g << e; ok( "assigned-prints-the-same", a == g ); }
    event( "documents" ); sample( text.substr( 0, 100 ) );
}
SECTION( "white-space-kept", 1500, 30000 )
{
    Watch w( "the-parser-terminates", 60 ); Condense c( false );
    Doc d = document( r, false, true, r.in( 0, 30 ) );
    TiXmlDocument doc; fill( doc, d.top, r.coin() );
    // printed without line breaks
    std::string s; s << doc; TiXmlDocument b; b.Parse( s.c_str(), 0, d.enc );
    checkTree( "string-round-trip-keeping-white-space", b, d.top, s );
    // elements with only a text
    M e; e.v = "t"; M t; t.k = Txt; do t.v = content( r, d.utf, 1, 30, true ); while ( blank( t.v ) ); e.ch.push_back( t );
    TiXmlDocument one; one.LinkEndChild( build( e, true ) ); std::string f = fileName( ".xml" ); one.SaveFile( f );
    TiXmlDocument back; back.LoadFile( f, d.enc ); checkTree( "file-round-trip-keeping-white-space", back, { e }, slurp( f ) ); unlink( f.c_str() );
    if ( back.RootElement() && back.RootElement()->GetText() ) ok( "get-text", back.RootElement()->GetText() == t.v.substr( 0, t.v.find( '\0' ) ) );
    event( "documents" );
}
// ---------------------------------------------------------------- hand-written text with positions
struct Pos { int row, col; };
struct Emit
{
    std::string s; int row = 0, col = 0, tab; bool utf;
    void put( const std::string& t )
    {
        for ( size_t i = 0; i < t.size(); ++i )
        {
            unsigned char c = t[ i ]; s += t[ i ];
            if ( c == '\n' ) { ++row; col = 0; } else if ( c == '\t' ) col = ( col / tab + 1 ) * tab; else if ( utf && ( c & 0xC0 ) == 0x80 ) {} else ++col;
        }
    }
    std::string ws( Rng& r, int lo ) { std::string t; for ( int i = r.in( lo, lo + 2 ); i > 0; --i ) t += r.pick( std::vector< char >{ ' ', '\n', '\t', ' ' } ); return t; }
};
static std::string escaped( Rng& r, const std::string& s, bool utf, char quote )
{
    std::string o;
    for ( size_t i = 0; i < s.size(); ++i )
    {
        unsigned char c = s[ i ]; bool plain = c != '<' && c != '&' && c != (unsigned char)quote && c >= 32;
        if ( plain && ( c != '>' || r.coin() ) && r.coin( 0.9 ) ) { o += s[ i ]; continue; }
        if ( c >= 128 ) { o += s[ i ]; continue; }
        int w = r.in( 0, 2 ); const char* n = c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : 0;
        if ( w == 0 && n ) o += n; else if ( w == 1 ) o += fmt( "&#%d;", c ); else o += fmt( r.coin() ? "&#x%x;" : "&#x%04X;", c );
    }
    (void)utf; return o;
}
static void emitNode( Rng& r, Emit& e, const M& m, std::vector< Pos >& at, std::vector< Pos >& attrs )
{
    if ( m.k == Txt && !m.cdata )
    {
        at.push_back( Pos{ e.row, e.col } ); e.put( escaped( r, m.v, e.utf, 0 ) ); return;
    }
    at.push_back( Pos{ e.row, e.col } );
    if ( m.k == Txt ) { e.put( "<![CDATA[" + m.v + "]]>" ); return; }
    if ( m.k == Comm ) { e.put( "<!--" + m.v + "-->" ); return; }
    if ( m.k == Unkn ) { e.put( "<" + m.v + ">" ); return; }
    if ( m.k == Decl ) { e.put( "<?xml" ); for ( auto& a : m.at ) if ( !a.second.empty() ) e.put( " " + a.first + "=" + ( r.coin() ? "\"" + a.second + "\"" : "'" + a.second + "'" ) ); e.put( r.coin() ? "?>" : " ?>" ); return; }
    e.put( "<" + m.v );
    for ( auto& a : m.at )
    {
        e.put( e.ws( r, 1 ) ); attrs.push_back( Pos{ e.row, e.col } ); char q = r.coin() ? '"' : '\'';
        e.put( a.first + ( r.coin( 0.2 ) ? " " : "" ) + "=" + ( r.coin( 0.2 ) ? "\n" : "" ) + q + escaped( r, a.second, e.utf, q ) + q );
    }
    if ( r.coin( 0.3 ) ) e.put( e.ws( r, 0 ) );
    if ( m.ch.empty() && r.coin() ) { e.put( "/>" ); return; }
    e.put( ">" );
    for ( auto& c : m.ch ) { if ( r.coin() ) e.put( e.ws( r, 0 ) ); emitNode( r, e, c, at, attrs ); }
    if ( r.coin() ) e.put( e.ws( r, 0 ) );
    e.put( "</" + m.v + ">" );
}
static void positions( const TiXmlNode* n, std::vector< Pos >& at, std::vector< bool >& text, std::vector< Pos >& attrs )
{
    at.push_back( Pos{ n->Row() - 1, n->Column() - 1 } ); text.push_back( n->ToText() && !n->ToText()->CDATA() );
    if ( const TiXmlElement* e = n->ToElement() ) for ( const TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next() ) attrs.push_back( Pos{ a->Row() - 1, a->Column() - 1 } );
    for ( const TiXmlNode* c = n->FirstChild(); c; c = c->NextSibling() ) positions( c, at, text, attrs );
}
SECTION( "hand-written", 3000, 60000 )
{
    Watch w( "the-parser-terminates", 60 );
    Doc d = document( r, true, true, r.in( 0, 30 ) );
    if ( d.enc == TIXML_ENCODING_UNKNOWN && d.utf ) d.enc = TIXML_ENCODING_UTF8;
    Emit e; e.tab = r.in( 1, 8 ); e.utf = d.utf; std::vector< Pos > at, attrs, gat, gattrs; std::vector< bool > isText;
    for ( auto& m : d.top ) { emitNode( r, e, m, at, attrs ); e.put( e.ws( r, 0 ) ); }
    TiXmlDocument doc; doc.SetTabSize( e.tab ); ok( "tab-size", doc.TabSize() == e.tab );
    std::vector< char > buf( e.s.begin(), e.s.end() ); buf.push_back( 0 ); buf.shrink_to_fit();
    doc.Parse( buf.data(), 0, d.enc ); checkTree( "hand-written-text", doc, d.top, e.s );
    for ( const TiXmlNode* c = doc.FirstChild(); c; c = c->NextSibling() ) positions( c, gat, isText, gattrs );
    if ( ok( "hand-written-node-count", gat.size() == at.size() && gattrs.size() == attrs.size() ) )
    {
        for ( size_t i = 0; i < at.size(); ++i ) if ( !isText[ i ] ) { bool good = ok( "node-location", gat[ i ].row == at[ i ].row && gat[ i ].col == at[ i ].col, fmt( "node %d got %d:%d want %d:%d tab %d in ", (int)i, gat[ i ].row, gat[ i ].col, at[ i ].row, at[ i ].col, e.tab ) + e.s.substr( 0, 300 ) ); if ( !good ) break; }
        for ( size_t i = 0; i < attrs.size(); ++i ) if ( !ok( "attribute-location", gattrs[ i ].row == attrs[ i ].row && gattrs[ i ].col == attrs[ i ].col, fmt( "got %d:%d want %d:%d", gattrs[ i ].row, gattrs[ i ].col, attrs[ i ].row, attrs[ i ].col ) ) ) break;
        event( "locations-compared", at.size() + attrs.size() );
    }
    event( "documents" ); sample( e.s.substr( 0, 100 ) );
}
SECTION( "character-references", 1500, 20000 )
{ // numeric and named references of any character of UTF-8 documents
    std::string want, src; int n = r.in( 1, 12 );
    for ( int i = 0; i < n; ++i )
    {
        unsigned c = codepoint( r ); if ( r.coin( 0.2 ) ) c = r.pick( std::vector< unsigned >{ 0x7F, 0x80, 0x7FF, 0x800, 0xFFFD, 0x10000, 0x10FFFF, 'a', 0xFFFC } );
        int w = r.in( 0, 4 );
        if ( w == 0 && c != '<' && c != '&' && c != '"' ) src += utf8( c ); else if ( w < 3 ) src += fmt( "&#%u;", c ); else src += fmt( r.coin() ? "&#x%X;" : "&#x%x;", c );
        want += utf8( c );
    }
    TiXmlDocument d; d.Parse( ( "<a b=\"" + src + "\">" + src + "</a>" ).c_str(), 0, TIXML_ENCODING_UTF8 );
    if ( !ok( "references-parsed", !d.Error() && d.RootElement() && d.RootElement()->GetText(), src ) ) return;
    ok( "reference-in-text", want == d.RootElement()->GetText(), src + " -> " + d.RootElement()->GetText() );
    ok( "reference-in-attribute", want == d.RootElement()->Attribute( "b" ), src );
    event( "references", n );
}
// ---------------------------------------------------------------- hostile input
static void hostile( Rng& r, const std::string& s, TiXmlEncoding enc, const char* what )
{
    size_t n = s.find( '\0' ); std::string t = s.substr( 0, n );
    std::unique_ptr< char[] > buf( new char[ t.size() + 1 ] ); memcpy( buf.get(), t.c_str(), t.size() + 1 );
    TiXmlDocument d; if ( r.coin() ) d.SetTabSize( r.in( 0, 8 ) );
    const char* p = d.Parse( buf.get(), 0, enc );
    ok( "parse-result-inside-the-input", p == 0 || ( p >= buf.get() && p <= buf.get() + t.size() ), fmt( "offset %ld of %zu ", p ? long( p - buf.get() ) : -1, t.size() ) + t.substr( 0, 300 ) );
    uint64_t nodes = 0; links( "links-of-hostile-input", &d, &d, nodes );
    if ( d.Error() )
    {
        int rows = 1; for ( char c : t ) if ( c == '\n' || c == '\r' ) ++rows;
        ok( "error-described", d.ErrorId() > 0 && d.ErrorDesc() && *d.ErrorDesc() );
        ok( "error-location", d.ErrorRow() >= 0 && d.ErrorRow() <= rows && d.ErrorCol() >= 0 && d.ErrorCol() <= 1 + int( t.size() ) * 9, fmt( "%d:%d ", d.ErrorRow(), d.ErrorCol() ) + t.substr( 0, 300 ) );
        event( fmt( "rejected-%d", d.ErrorId() ) );
    }
    else { ok( "a-tree-or-an-error", d.FirstChild() != 0, t.substr( 0, 300 ) ); event( "accepted" ); }
    // the tree prints and copies in any case
    std::string a, b; a << d; TiXmlDocument c( d ); b << c; ok( "copy-of-hostile-tree", a.size() >= b.size() );
    event( what );
}
static const std::vector< TiXmlEncoding > encodings = { TIXML_ENCODING_UNKNOWN, TIXML_ENCODING_UTF8, TIXML_ENCODING_LEGACY };
static std::string tokens( Rng& r, int n )
{
    static const std::vector< std::string > tok = { "<", ">", "</", "/>", "<a", "<a>", "</a>", "<b ", " x=\"1\"", " y='", "'", "\"", "=", "<!--", "-->", "--", "<![CDATA[", "]]>", "]]", "<!", "<?xml", "?>", " version=\"1.0\"", " encoding=\"UTF-8\"", " encoding='", " standalone=\"yes\"", "&", "&amp;", "&#", "&#x", "&#65;", "&#x41;", "&#xFFFFFFFF;", "&#99999999999;", ";", "&lt", "text", " ", "\n", "\r", "\t", "\xEF\xBB\xBF", "\xEF", "\xEF\xBB", "\xEF\xBF", "\xEF\xBF\xBE", "\xC3", "\xE2\x82", "\xF0\x9F", "\xF4\x8F\xBF\xBF", "\xFF", "\x80", "\x01", "<_", "<:", "<1", "xml" };
    std::string s; for ( int i = 0; i < n; ++i ) s += r.coin( 0.9 ) ? r.pick( tok ) : std::string( 1, char( r.in( 1, 255 ) ) ); return s;
}
static std::string validText( Rng& r, TiXmlEncoding& enc, std::vector< M >* top = 0 )
{
    Doc d = document( r, true, true, r.in( 0, 12 ) ); Emit e; e.tab = 4; e.utf = d.utf; std::vector< Pos > a, b; for ( auto& m : d.top ) { emitNode( r, e, m, a, b ); e.put( e.ws( r, 0 ) ); }
    enc = d.enc; if ( top ) *top = d.top; return e.s;
}
SECTION( "hostile-tokens", 20000, 600000 )
{
    Watch w( "the-parser-terminates", 60 ); Condense c( r.coin( 0.8 ) );
    std::string s = r.coin( 0.5 ) ? "<a>" : r.coin( 0.3 ) ? "<?xml" : ""; s += tokens( r, r.in( 0, 14 ) ); hostile( r, s, r.pick( encodings ), "token-streams" );
}
SECTION( "hostile-mutations", 8000, 300000 )
{
    Watch w( "the-parser-terminates", 60 ); Condense c( r.coin( 0.8 ) );
    TiXmlEncoding enc; std::string s = validText( r, enc );
    for ( int k = r.in( 1, 4 ); k > 0; --k )
    {
        size_t i = s.empty() ? 0 : r.u64() % s.size();
        switch ( r.in( 0, 4 ) ) { case 0: if ( !s.empty() ) s[ i ] = char( r.in( 1, 255 ) ); break; case 1: s.insert( i, tokens( r, 1 ) ); break; case 2: s.erase( i, r.in( 1, 4 ) ); break; case 3: s.resize( i ); break; default: s += s.substr( i ); }
    }
    if ( r.coin( 0.2 ) ) enc = r.pick( encodings );
    hostile( r, s, enc, "mutated-documents" );
}
SECTION( "hostile-bytes", 4000, 100000 )
{
    Watch w( "the-parser-terminates", 60 ); std::string s; for ( int i = r.in( 0, 40 ); i > 0; --i ) s += char( r.in( 1, 255 ) ); if ( r.coin() ) s = "<" + s; if ( r.coin( 0.3 ) ) s = "<a " + s; if ( r.coin( 0.3 ) ) s = "<a>" + s;
    hostile( r, s, r.pick( encodings ), "random-bytes" );
}
SECTION( "truncation-reported", 1500, 40000 )
{ // a document cut inside its root element, or inside a construct before it, is never taken as complete
    Watch w( "the-parser-terminates", 60 );
    TiXmlEncoding enc; std::vector< M > top; std::string s = validText( r, enc, &top );
    while ( !s.empty() && isspace( (unsigned char)s[ s.size() - 1 ] ) ) s.resize( s.size() - 1 );
    TiXmlDocument full; full.Parse( s.c_str(), 0, enc ); if ( full.Error() ) return;
    for ( int k = 0; k < 12; ++k )
    {
        size_t cut = k == 0 ? s.size() - 1 : r.u64() % s.size(); std::string t = s.substr( 0, cut ); size_t n = t.size();
        std::unique_ptr< char[] > buf( new char[ n + 1 ] ); memcpy( buf.get(), t.c_str(), n + 1 );
        TiXmlDocument d; const char* p = d.Parse( buf.get(), 0, enc );
        ok( "parse-result-inside-the-input", p == 0 || ( p >= buf.get() && p <= buf.get() + n ), t );
        if ( d.Error() ) { event( "truncations-reported" ); ok( "truncation-reported-with-an-error", d.ErrorId() > 0 ); continue; }
        // accepted: everything there must be whole nodes of the document, and nothing of the root element may be there
        M got = readDoc( d ); bool whole = got.ch.size() < top.size(); for ( size_t i = 0; whole && i < got.ch.size(); ++i ) whole = same( got.ch[ i ], top[ i ] );
        ok( "truncated-document-not-accepted", whole, "cut at " + std::to_string( cut ) + " of " + s.substr( 0, 400 ) + " gives " + kstr( got ).substr( 0, 300 ) ); event( "truncated-between-nodes" );
    }
}
SECTION( "malformed-reported", 2000, 40000 )
{ // documents with one definite mistake inside: reported, where the mistake is
    Watch w( "the-parser-terminates", 60 );
    Emit e; e.tab = 4; e.utf = true; std::vector< Pos > a, b; Gen g{ true, true, 10, true };
    auto good = [ & ]() { M m = element( r, g, 2 ); emitNode( r, e, m, a, b ); };
    e.put( e.ws( r, 0 ) ); e.put( "<root>" ); for ( int i = r.in( 0, 3 ); i > 0; --i ) { good(); e.put( e.ws( r, 0 ) ); }
    Pos at = Pos{ e.row, e.col }; bool located = false; int kind = r.in( 0, 9 );
    switch ( kind )
    {
    case 0: e.put( "<x>" ); e.put( e.ws( r, 0 ) ); at = Pos{ e.row, e.col }; located = true; e.put( "</y>" ); break;
    case 1: e.put( "<x a=\"1\" b='2' a=\"3\">" ); good(); e.put( "</x>" ); break;
    case 2: e.put( "<x a>" ); e.put( "</x>" ); break;
    case 3: e.put( "<x a=\"v></x>" ); break;
    case 4: e.put( "<x / >" ); break;
    case 5: e.put( "<x>&#zz;</x>" ); break;
    case 6: e.put( "<x a=v\"></x>" ); break;
    case 7: e.put( "<!-- never ends - ->" ); break;
    case 8: e.put( "<![CDATA[ never ends ]] >" ); break;
    case 9: e.put( "<x 1=\"2\"/>" ); break;
    }
    if ( kind != 7 && kind != 8 ) good();
    e.put( "</root>" ); if ( r.coin() ) e.put( "\n" );
    std::unique_ptr< char[] > buf( new char[ e.s.size() + 1 ] ); memcpy( buf.get(), e.s.c_str(), e.s.size() + 1 );
    TiXmlDocument d; d.Parse( buf.get(), 0, TIXML_ENCODING_UTF8 );
    // case 3: the quotes of what follows may close the value, still the root element is not closed properly or the value holds '<'
    if ( kind == 3 ) { event( "malformed-3" ); return; }
    ok( "malformed-document-reported", d.Error(), fmt( "kind %d ", kind ) + e.s.substr( 0, 400 ) );
    if ( d.Error() && located ) ok( "error-where-the-mistake-is", d.ErrorRow() == at.row + 1 && d.ErrorCol() == at.col + 1, fmt( "got %d:%d want %d:%d in ", d.ErrorRow(), d.ErrorCol(), at.row + 1, at.col + 1 ) + e.s.substr( 0, 400 ) );
    std::string f = fileName( "bad.xml" ); spit( f, e.s ); TiXmlDocument l; ok( "malformed-file-not-loaded", !l.LoadFile( f, TIXML_ENCODING_UTF8 ) && l.Error(), e.s.substr( 0, 300 ) ); unlink( f.c_str() );
    event( fmt( "malformed-%d", kind ) );
    // the same document object parses a good text afterwards
    d.Clear(); d.Parse( "<ok/>", 0, TIXML_ENCODING_UTF8 ); ok( "usable-after-an-error", !d.Error() && d.RootElement() && d.RootElement()->ValueStr() == "ok" );
}
SECTION( "hostile-streams", 6000, 150000 )
{
    Watch w( "the-stream-reader-terminates", 60 );
    std::string s; TiXmlEncoding enc; if ( r.coin() ) { s = validText( r, enc ); for ( int k = r.in( 0, 3 ); k > 0; --k ) { size_t i = s.empty() ? 0 : r.u64() % s.size(); switch ( r.in( 0, 3 ) ) { case 0: if ( !s.empty() ) s[ i ] = char( r.in( 0, 255 ) ); break; case 1: s.insert( i, tokens( r, 1 ) ); break; case 2: s.erase( i, r.in( 1, 4 ) ); break; default: s.resize( i ); } } }
    else s = ( r.coin() ? "<a>" : "" ) + tokens( r, r.in( 0, 12 ) );
    if ( r.coin( 0.2 ) && !s.empty() ) s[ r.u64() % s.size() ] = 0;
    std::istringstream in( s ); uint64_t nodes = 0;
    switch ( r.in( 0, 5 ) )
    {
    case 0: { TiXmlElement e( "x" ); in >> e; links( "links-of-streamed-element", &e, 0, nodes ); event( "streamed-elements" ); } break;
    case 1: { TiXmlComment e; in >> e; links( "links-of-streamed-node", &e, 0, nodes ); event( "streamed-comments" ); } break;
    case 2: { TiXmlText e( "" ); e.SetCDATA( r.coin() ); in >> e; links( "links-of-streamed-node", &e, 0, nodes ); event( "streamed-texts" ); } break;
    case 3: { TiXmlDeclaration e; in >> e; links( "links-of-streamed-node", &e, 0, nodes ); event( "streamed-declarations" ); } break;
    default: { TiXmlDocument d; in >> d; links( "links-of-streamed-document", &d, &d, nodes ); ok( "streamed-tree-or-error", d.Error() || d.FirstChild() ); event( d.Error() ? "streams-rejected" : "streams-accepted" ); }
    }
}
SECTION( "fragments", 3000, 60000 )
{ // nodes parse on their own, outside any document
    Watch w( "the-parser-terminates", 60 );
    std::string s = tokens( r, r.in( 1, 8 ) ); int k = r.in( 0, 4 ); static const char* const head[] = { "<e>", "<!--", "<![CDATA[", "<?xml", "<!x" }; if ( r.coin( 0.7 ) ) s = head[ k ] + s;
    std::unique_ptr< char[] > buf( new char[ s.size() + 1 ] ); memcpy( buf.get(), s.c_str(), s.size() + 1 ); TiXmlEncoding enc = r.pick( encodings ); const char* p = 0;
    size_t n = strlen( buf.get() );
    switch ( k )
    {
    case 0: { TiXmlElement e( "" ); p = e.Parse( buf.get(), 0, enc ); uint64_t c = 0; links( "links-of-fragment", &e, 0, c ); } break;
    case 1: { TiXmlComment e; p = e.Parse( buf.get(), 0, enc ); } break;
    case 2: { TiXmlText e( "" ); e.SetCDATA( true ); p = e.Parse( buf.get(), 0, enc ); } break;
    case 3: { TiXmlDeclaration e; p = e.Parse( buf.get(), 0, enc ); } break;
    case 4: { TiXmlUnknown e; p = e.Parse( buf.get(), 0, enc ); } break;
    }
    ok( "parse-result-inside-the-input", p == 0 || ( p >= buf.get() && p <= buf.get() + n ), s ); event( "fragments" );
}
SECTION( "nested-deeply", 12, 60 )
{ // depth is bounded by the reported error, not by the stack
    Watch w( "the-parser-terminates", 100 );
    int n = r.pick( std::vector< int >{ 300, 20000, 100000, 400000 } ); std::string s; bool close = r.coin(); s.reserve( n * 8 );
    for ( int i = 0; i < n; ++i ) s += "<a>"; if ( close ) for ( int i = 0; i < n; ++i ) s += "</a>";
    if ( r.coin() )
    {
        TiXmlDocument d; d.Parse( s.c_str(), 0, TIXML_ENCODING_UTF8 ); ok( "nested-deeply-tree-or-error", d.Error() || ( close && d.FirstChild() ) );
        if ( n == 300 ) ok( "moderate-nesting-accepted", d.Error() != close );
        event( d.Error() ? "deep-rejected" : "deep-accepted" );
    }
    else
    {
        std::istringstream in( s ); TiXmlDocument d; in >> d; ok( "nested-deeply-tree-or-error", d.Error() || ( close && d.FirstChild() ) );
        if ( n == 300 ) ok( "moderate-nesting-accepted", d.Error() != close );
        event( "deep-streams" );
    }
}
SECTION( "files", 300, 3000 )
{
    std::string f = fileName( "f.xml" ); unlink( f.c_str() );
    TiXmlDocument d;
    ok( "missing-file-reported", !d.LoadFile( f ) && d.Error() && d.ErrorId() == TiXmlBase::TIXML_ERROR_OPENING_FILE );
    spit( f, "" ); TiXmlDocument e( f ); ok( "empty-file-reported", !e.LoadFile() && e.Error() );
    spit( f, std::string( r.in( 1, 9 ), r.coin() ? ' ' : '\n' ) ); TiXmlDocument g; ok( "blank-file-reported", !g.LoadFile( f ) && g.Error() );
    { TiXmlDocument x; bool threw = throws( [ & ]() { ok( "directory-reported", !x.LoadFile( scratch() ) && x.Error() ); } ); ok( "directory-without-exception", !threw ); }
    spit( f, "<a>" + std::string( r.in( 0, 4 ), 'x' ) + "</a>" ); ok( "good-file-after-errors", d.LoadFile( f ) && !d.Error() && d.RootElement() );
    FILE* fp = 0; TiXmlDocument nul; ok( "null-file-reported", !nul.LoadFile( fp ) && nul.Error() );
    M big; big.v = "r"; for ( int i = r.in( 0, 400 ); i > 0; --i ) { M c; c.v = "child"; c.at.push_back( { "k", "value" } ); big.ch.push_back( c ); }
    TiXmlDocument s; s.LinkEndChild( build( big, true ) );
    ok( "unwritable-file-reported", !s.SaveFile( scratch() + "/no-such-directory/x.xml" ) );
    if ( access( "/dev/full", W_OK ) == 0 ) { ok( "full-disk-reported", !s.SaveFile( "/dev/full" ) ); event( "full-disk" ); }
    FILE* o = fopen( f.c_str(), "w" ); ok( "saved", s.SaveFile( o ) ); fclose( o );
    o = fopen( f.c_str(), "rb" ); TiXmlDocument l; ok( "loaded", l.LoadFile( o ) ); fclose( o ); checkTree( "file-pointer-round-trip", l, { big }, "" );
    unlink( f.c_str() ); event( "file-faults" );
}
// ---------------------------------------------------------------- editing
struct N // node of the model, identity kept through the real node
{
    M m; TiXmlNode* real = 0; std::vector< std::unique_ptr< N > > ch; N* up = 0;
};
static std::unique_ptr< N > mirror( TiXmlNode* n, N* up ) { std::unique_ptr< N > x( new N ); x->m = readNode( n ); x->m.ch.clear(); x->real = n; x->up = up; for ( TiXmlNode* c = n->FirstChild(); c; c = c->NextSibling() ) x->ch.push_back( mirror( c, x.get() ) ); return x; }
static M toM( const N& n ) { M m = n.m; for ( auto& c : n.ch ) m.ch.push_back( toM( *c ) ); return m; }
static void every( N* n, std::vector< N* >& v ) { v.push_back( n ); for ( auto& c : n->ch ) every( c.get(), v ); }
static void compare( const N& n, std::string& bad )
{
    TiXmlNode* t = n.real; size_t i = 0; TiXmlNode* prev = 0;
    for ( TiXmlNode* c = t->FirstChild(); c; c = c->NextSibling(), ++i )
    {
        if ( i >= n.ch.size() || n.ch[ i ]->real != c ) { bad = "child list"; return; }
        if ( c->Parent() != t || c->PreviousSibling() != prev ) { bad = "links"; return; } prev = c;
        compare( *n.ch[ i ], bad ); if ( !bad.empty() ) return;
    }
    if ( i != n.ch.size() || t->LastChild() != prev ) { bad = "child count"; return; }
    M m = readNode( t ); m.ch.clear(); M w = n.m; if ( !t->ToDocument() && !same( m, w, true ) ) bad = "node " + kstr( m ) + " want " + kstr( w );
}
struct Rec : TiXmlVisitor
{
    std::string s; int stopAt = -1, n = 0;
    bool go() { return ++n != stopAt; }
    bool VisitEnter( const TiXmlDocument& ) override { s += "D("; return go(); }
    bool VisitExit( const TiXmlDocument& ) override { s += ")"; return true; }
    bool VisitEnter( const TiXmlElement& e, const TiXmlAttribute* a ) override { s += "E" + e.ValueStr() + ( a ? "@" + a->NameTStr() : "" ) + ( a == e.FirstAttribute() ? "" : "!" ) + "("; return go(); }
    bool VisitExit( const TiXmlElement& ) override { s += ")"; return true; }
    bool Visit( const TiXmlDeclaration& ) override { s += "d"; return go(); }
    bool Visit( const TiXmlText& t ) override { s += "t" + t.ValueStr(); return go(); }
    bool Visit( const TiXmlComment& ) override { s += "c"; return go(); }
    bool Visit( const TiXmlUnknown& ) override { s += "u"; return go(); }
};
static void trace( const M& m, std::string& s )
{
    if ( m.k == Elem ) { s += "E" + m.v + ( m.at.empty() ? "" : "@" + m.at[ 0 ].first ) + "("; for ( auto& c : m.ch ) trace( c, s ); s += ")"; }
    else s += m.k == Decl ? "d" : m.k == Txt ? "t" + m.v : m.k == Comm ? "c" : "u";
}
SECTION( "editing", 2500, 50000 )
{
    std::string ops;
    TiXmlDocument doc; Gen g{ true, true, 1000000, true }; static char tags[ 64 ];
    N root; root.real = &doc;
    auto fresh = [ & ]() { M m; int w = r.in( 0, 9 ); if ( w < 6 ) { g.budget = r.in( 0, 3 ); m = element( r, g, r.in( 0, 2 ) ); } else if ( w == 6 ) m = comment( r, true ); else if ( w == 7 ) m = unknown( r, true ); else if ( w == 8 ) { m.k = Txt; m.v = content( r, true, 1, 6, true ); m.cdata = r.coin(); } else m = declaration( r, "UTF-8" ); if ( m.k == Elem && r.coin() ) m.v = r.pick( std::vector< std::string >{ "a", "b", "c" } ); if ( r.coin( 0.3 ) ) m.user = tags + r.in( 0, 63 ); return m; };
    int steps = r.in( 5, 60 );
    for ( int step = 0; step < steps; ++step )
    {
        std::vector< N* > all; every( &root, all ); N* n = all[ r.u64() % all.size() ];
        std::vector< N* > hosts; for ( N* x : all ) if ( x->real->ToDocument() || x->real->ToElement() ) hosts.push_back( x );
        N* h = hosts[ r.u64() % hosts.size() ]; TiXmlNode* H = h->real; int op = r.in( 0, 13 );
        N* k = h->ch.empty() ? 0 : h->ch[ r.u64() % h->ch.size() ].get(); size_t at = 0; if ( k ) while ( h->ch[ at ].get() != k ) ++at;
        auto add = [ & ]( TiXmlNode* got, size_t pos, const M& want, const char* key ) { if ( !ok( key, got != 0 && got->Parent() == H && same( readNode( got ), want, true ), "inserted node differs" ) ) return; h->ch.insert( h->ch.begin() + pos, mirror( got, h ) ); };
        switch ( op )
        {
        case 0: { M m = fresh(); TiXmlNode* x = build( m, true ); ok( "link-returns-the-node", H->LinkEndChild( x ) == x ); h->ch.push_back( mirror( x, h ) ); ops += "L"; } break;
        case 1: { M m = fresh(); std::unique_ptr< TiXmlNode > x( build( m, true ) ); TiXmlNode* y = H->InsertEndChild( *x ); ok( "insert-copies", y != x.get() ); add( y, h->ch.size(), m, "insert-end" ); ops += "E"; } break;
        case 2: if ( k ) { M m = fresh(); std::unique_ptr< TiXmlNode > x( build( m, true ) ); add( H->InsertBeforeChild( k->real, *x ), at, m, "insert-before" ); ops += "B"; } break;
        case 3: if ( k ) { M m = fresh(); std::unique_ptr< TiXmlNode > x( build( m, true ) ); add( H->InsertAfterChild( k->real, *x ), at + 1, m, "insert-after" ); ops += "A"; } break;
        case 4: if ( k ) { M m = fresh(); std::unique_ptr< TiXmlNode > x( build( m, true ) ); TiXmlNode* y = H->ReplaceChild( k->real, *x ); h->ch.erase( h->ch.begin() + at ); add( y, at, m, "replace" ); ops += "R"; } break;
        case 5: if ( k && r.coin() ) { ok( "remove-returns-true", H->RemoveChild( k->real ) ); h->ch.erase( h->ch.begin() + at ); ops += "X"; } break;
        case 6: if ( r.coin( 0.1 ) ) { H->Clear(); h->ch.clear(); ops += "C"; } break;
        case 7: if ( TiXmlElement* e = n->real->ToElement() )
            {
                std::string nm = name( r, true ); if ( r.coin() && !n->m.at.empty() ) nm = r.pick( n->m.at ).first; std::string v = content( r, true, 0, 8, true );
                bool stl = r.coin(); if ( stl ) e->SetAttribute( nm, v ); else e->SetAttribute( nm.c_str(), v.c_str() );
                bool f = false; for ( auto& a : n->m.at ) if ( a.first == nm ) { a.second = v; f = true; } if ( !f ) n->m.at.push_back( { nm, v } ); ops += "S";
            } break;
        case 8: if ( TiXmlElement* e = n->real->ToElement() )
            {
                std::string nm = name( r, true ); if ( r.coin( 0.8 ) && !n->m.at.empty() ) nm = r.pick( n->m.at ).first; if ( r.coin() ) e->RemoveAttribute( nm ); else e->RemoveAttribute( nm.c_str() );
                for ( size_t i = 0; i < n->m.at.size(); ++i ) if ( n->m.at[ i ].first == nm ) { n->m.at.erase( n->m.at.begin() + i ); break; } ops += "-";
            } break;
        case 9: if ( n != &root && n->m.k != Decl ) { std::string v = n->m.k == Elem ? name( r, true ) : std::string( "v" ) + char( r.in( 'a', 'z' ) ); if ( r.coin() ) n->real->SetValue( v ); else n->real->SetValue( v.c_str() ); n->m.v = v; ops += "V"; } break;
        case 10: // a document never goes inside a tree
            {
                TiXmlDocument other; other.LinkEndChild( new TiXmlElement( "o" ) ); doc.ClearError(); TiXmlNode* y = 0; int w = r.in( 0, 4 );
                if ( w == 0 ) y = H->InsertEndChild( other ); else if ( w == 1 && k ) y = H->InsertBeforeChild( k->real, other ); else if ( w == 2 && k ) y = H->InsertAfterChild( k->real, other ); else if ( w == 3 && k ) y = H->ReplaceChild( k->real, other ); else y = H->LinkEndChild( new TiXmlDocument( other ) );
                ok( "document-not-inserted", y == 0 ); if ( w == 0 || k ) ok( "document-insertion-reported", doc.Error() && doc.ErrorId() == TiXmlBase::TIXML_ERROR_DOCUMENT_TOP_ONLY ); doc.ClearError(); ops += "d";
            } break;
        case 11: // not a child of that node: nothing happens
            if ( n != &root && n->up != h ) { TiXmlElement x( "x" ); ok( "foreign-child-refused", H->InsertBeforeChild( n->real, x ) == 0 && H->InsertAfterChild( n->real, x ) == 0 && H->ReplaceChild( n->real, x ) == 0 && !H->RemoveChild( n->real ) ); ok( "null-child-refused", H->InsertBeforeChild( 0, x ) == 0 && H->InsertAfterChild( 0, x ) == 0 ); ops += "f"; } break;
        case 12: if ( TiXmlElement* e = n->real->ToElement() )
            { // assignment, also from itself and from an own descendant
                std::vector< N* > sub; every( n, sub ); std::vector< N* > el; for ( N* x : r.coin( 0.3 ) ? sub : all ) if ( x->real->ToElement() ) el.push_back( x );
                N* src = el[ r.u64() % el.size() ]; bool anc = false; for ( N* p = n; p; p = p->up ) if ( p == src && p != n ) anc = true; if ( anc ) break;
                M m = toM( *src ); *e = *src->real->ToElement(); ok( "assigned-element-equals-its-source", same( readNode( e ), m, true ), kstr( readNode( e ) ) + " want " + kstr( m ) );
                n->m = m; n->m.ch.clear(); n->ch.clear(); for ( TiXmlNode* c = e->FirstChild(); c; c = c->NextSibling() ) n->ch.push_back( mirror( c, n ) ); ops += src == n ? "=" : "<";
            } break;
        case 13: if ( n != &root && ( n->real->ToElement() || n->real->ToComment() || n->real->ToUnknown() || n->real->ToDeclaration() ) )
            {
                std::unique_ptr< TiXmlNode > c( n->real->Clone() ); ok( "clone-equals", same( readNode( c.get() ), toM( *n ), true ) ); ok( "clone-is-detached", !c->Parent() && !c->NextSibling() && !c->PreviousSibling() && !c->GetDocument() );
                uint64_t cnt = 0; links( "links-of-clone", c.get(), 0, cnt ); ops += "c";
            } break;
        }
        std::string bad; compare( root, bad ); if ( !ok( "edited-tree-equals-model", bad.empty(), bad + " after " + ops ) ) return;
    }
    uint64_t cnt = 0; links( "links-after-editing", &doc, &doc, cnt ); event( "edited-nodes", cnt ); event( "edits", steps ); seen( "edit-sequences" );
    // navigation
    std::vector< N* > all; every( &root, all );
    for ( int q = 0; q < 10; ++q )
    {
        N* h = all[ r.u64() % all.size() ]; TiXmlNode* H = h->real; const TiXmlNode* CH = H; std::string nm = r.pick( std::vector< std::string >{ "a", "b", "c" } ); if ( !h->ch.empty() && r.coin() ) { nm = h->ch[ r.u64() % h->ch.size() ]->m.v; }
        std::vector< TiXmlNode* > kids, named; std::vector< TiXmlElement* > els, nels; for ( auto& c : h->ch ) { kids.push_back( c->real ); bool isN = strcmp( c->real->Value(), nm.c_str() ) == 0; if ( isN ) named.push_back( c->real ); if ( TiXmlElement* e = c->real->ToElement() ) { els.push_back( e ); if ( isN ) nels.push_back( e ); } }
        std::vector< TiXmlNode* > it, itn, back; TiXmlNode* c = 0; while ( ( c = H->IterateChildren( c ) ) ) it.push_back( c ); while ( ( c = H->IterateChildren( nm, c ) ) ) itn.push_back( c ); for ( c = H->LastChild(); c; c = c->PreviousSibling() ) back.insert( back.begin(), c );
        ok( "iterate-children", it == kids && back == kids ); ok( "iterate-named-children", itn == named );
        std::vector< TiXmlNode* > nf, nb; for ( c = H->FirstChild( nm ); c; c = c->NextSibling( nm ) ) nf.push_back( c ); for ( c = H->LastChild( nm ); c; c = c->PreviousSibling( nm ) ) nb.insert( nb.begin(), c ); ok( "named-siblings", nf == named && nb == named );
        std::vector< TiXmlElement* > ef, enf; TiXmlElement* e; for ( e = H->FirstChildElement(); e; e = e->NextSiblingElement() ) ef.push_back( e ); for ( e = H->FirstChildElement( nm ); e; e = e->NextSiblingElement( nm ) ) enf.push_back( e ); ok( "child-elements", ef == els ); ok( "named-child-elements", enf == nels );
        ok( "const-navigation", CH->FirstChild() == H->FirstChild() && CH->LastChild( nm ) == H->LastChild( nm ) && CH->FirstChildElement( nm ) == H->FirstChildElement( nm ) && CH->GetDocument() == &doc );
        TiXmlHandle hd( H ); int i = r.in( 0, (int)kids.size() + 1 );
        auto pick = [ & ]( auto& v ) -> TiXmlNode* { return i < (int)v.size() ? v[ i ] : 0; };
        ok( "handle-child", hd.Child( i ).ToNode() == pick( kids ) && hd.Child( nm, i ).ToNode() == pick( named ) && hd.ChildElement( i ).ToNode() == pick( els ) && hd.ChildElement( nm, i ).ToNode() == pick( nels ) );
        ok( "handle-first", hd.FirstChild().ToNode() == ( kids.empty() ? 0 : kids[ 0 ] ) && hd.FirstChild( nm ).ToNode() == ( named.empty() ? 0 : named[ 0 ] ) && hd.FirstChildElement().ToElement() == ( els.empty() ? 0 : els[ 0 ] ) && hd.FirstChildElement( nm ).ToElement() == ( nels.empty() ? 0 : nels[ 0 ] ) );
        TiXmlHandle none( 0 ); ok( "empty-handle-stays-empty", !none.FirstChild().Child( 0 ).ChildElement( nm, 0 ).FirstChildElement().FirstChild( nm ).Child( nm, 1 ).ChildElement( 2 ).FirstChildElement( nm ).ToNode() && !none.ToElement() && !none.ToText() && !none.ToUnknown() );
    }
    Rec v; ok( "visitor-result", doc.Accept( &v ) ); std::string want = "D("; for ( auto& c : root.ch ) trace( toM( *c ), want ); want += ")"; ok( "visitor-order", v.s == want, v.s.substr( 0, 300 ) + " want " + want.substr( 0, 300 ) );
    Rec part; part.stopAt = 1; doc.Accept( &part ); ok( "visitor-stops", part.s == "D()" );
    M snap = readDoc( doc ); doc = *&doc; ok( "assigning-a-document-to-itself", same( readDoc( doc ), snap, true ) );
    sample( ops );
}
SECTION( "no-leaks", 200, 2000 )
{
    auto body = [ & ]( uint64_t seed ) {
        Rng q( seed ); Condense c( q.coin( 0.8 ) );
        for ( int i = 0; i < 4; ++i )
        {
            TiXmlEncoding enc; std::string s = q.coin() ? validText( q, enc ) : "<a>" + tokens( q, 8 ); if ( q.coin() && !s.empty() ) s.resize( q.u64() % s.size() ); s = s.substr( 0, s.find( '\0' ) );
            TiXmlDocument d; d.Parse( s.c_str(), 0, q.pick( encodings ) ); TiXmlDocument e( d ); e = d; std::istringstream in( s ); TiXmlDocument f; in >> f; std::string o; o << d;
            if ( TiXmlElement* el = d.RootElement() ) { TiXmlElement k( *el ); k = *el; d.InsertEndChild( k ); d.ReplaceChild( el, k ); d.LinkEndChild( new TiXmlDocument( e ) ); }
        }
    };
    uint64_t seed = r.u64(); body( seed ); size_t a = __sanitizer_get_current_allocated_bytes(); body( seed ); body( seed ); size_t b = __sanitizer_get_current_allocated_bytes();
    ok( "no-leaks", b <= a, fmt( "%zu bytes more", b - a ) );
}
// ---------------------------------------------------------------- attributes
SECTION( "typed-attributes", 3000, 60000 )
{
    TiXmlElement e( "e" ); std::string n = name( r, true ), other = n + "x";
    int i = r.coin( 0.3 ) ? r.pick( std::vector< int >{ INT_MAX, INT_MIN, 0, -1 } ) : int( r.u64() ); double d = r.coin( 0.2 ) ? r.pick( std::vector< double >{ 0, 1e300, -1e300, 1e-6, 123456.789, DBL_MAX } ) : r.sgn() * r.logu( 1e-9, 1e18 );
    // integers exactly
    if ( r.coin() ) e.SetAttribute( n.c_str(), i ); else e.SetAttribute( n, i );
    int j = 7; double f = 7; float fl = 7; long long ll = 7; std::string sv;
    ok( "int-query", e.QueryIntAttribute( n.c_str(), &j ) == TIXML_SUCCESS && j == i ); j = 7; ok( "int-query", e.QueryIntAttribute( n, &j ) == TIXML_SUCCESS && j == i, fmt( "%d want %d", j, i ) );
    ok( "int-as-double", e.QueryDoubleAttribute( n, &f ) == TIXML_SUCCESS && f == double( i ) ); ok( "int-as-value", e.QueryValueAttribute( n, &ll ) == TIXML_SUCCESS && ll == i );
    j = 7; ok( "int-attribute", e.Attribute( n.c_str(), &j ) && j == i ); j = 7; ok( "int-attribute", e.Attribute( n, &j ) && j == i ); ok( "int-value", e.FirstAttribute()->IntValue() == i );
    // doubles to the printed precision: six decimals
    auto close = [ & ]( double got ) { return std::fabs( got - d ) <= 0.5000001e-6 + 4e-16 * std::fabs( d ); };
    if ( r.coin() ) e.SetDoubleAttribute( n.c_str(), d ); else e.FirstAttribute()->SetDoubleValue( d );
    f = 7; ok( "double-query", e.QueryDoubleAttribute( n.c_str(), &f ) == TIXML_SUCCESS && close( f ), fmt( "%.17g want %.17g", f, d ) ); f = 7; ok( "double-query", e.QueryDoubleAttribute( n, &f ) == TIXML_SUCCESS && close( f ) );
    f = 7; ok( "double-attribute", e.Attribute( n.c_str(), &f ) && close( f ) ); f = 7; ok( "double-attribute", e.Attribute( n, &f ) && close( f ) ); ok( "double-value", close( e.FirstAttribute()->DoubleValue() ) );
    if ( std::fabs( d ) < 1e30 ) ok( "float-query", e.QueryFloatAttribute( n.c_str(), &fl ) == TIXML_SUCCESS && fl == float( f ) );
    // text
    std::string v = content( r, true, 0, 10, true ); e.SetAttribute( n, v ); ok( "text-attribute", e.Attribute( n ) && *e.Attribute( n ) == v && v == e.Attribute( n.c_str() ) );
    ok( "one-attribute", e.FirstAttribute() == e.LastAttribute() && e.FirstAttribute()->Next() == 0 );
    // not there
    j = 7; f = 7; fl = 7; ok( "missing-attribute-reported", e.QueryIntAttribute( other, &j ) == TIXML_NO_ATTRIBUTE && e.QueryDoubleAttribute( other.c_str(), &f ) == TIXML_NO_ATTRIBUTE && e.QueryFloatAttribute( other.c_str(), &fl ) == TIXML_NO_ATTRIBUTE && e.QueryValueAttribute( other, &ll ) == TIXML_NO_ATTRIBUTE && j == 7 && f == 7 && fl == 7 );
    ok( "missing-attribute-is-null", !e.Attribute( other ) && !e.Attribute( other.c_str() ) && !e.Attribute( other, &j ) && j == 0 && !e.Attribute( other.c_str(), &f ) && f == 0 );
    // not a number
    e.SetAttribute( n, r.pick( std::vector< std::string >{ "abc", "", "-", "x1", "+-3" } ) ); j = 7; f = 7; ok( "wrong-type-reported", e.QueryIntAttribute( n, &j ) == TIXML_WRONG_TYPE && e.QueryDoubleAttribute( n, &f ) == TIXML_WRONG_TYPE && e.QueryValueAttribute( n, &ll ) == TIXML_WRONG_TYPE && j == 7 && f == 7 );
    // through text
    e.SetAttribute( n, i ); e.SetDoubleAttribute( other.c_str(), d ); TiXmlDocument doc; doc.InsertEndChild( e ); std::string s; s << doc; TiXmlDocument b; b.Parse( s.c_str(), 0, TIXML_ENCODING_UTF8 );
    j = 7; f = 7; ok( "numbers-through-text", b.RootElement() && b.RootElement()->QueryIntAttribute( n, &j ) == TIXML_SUCCESS && j == i && b.RootElement()->QueryDoubleAttribute( other, &f ) == TIXML_SUCCESS && close( f ), s );
    // the attribute object
    TiXmlAttribute a( n, v ), c2( other.c_str(), "" ); ok( "attribute-comparison", a == a && ( a < c2 ) == ( n < other ) && ( a > c2 ) == ( n > other ) ); a.SetIntValue( i ); ok( "attribute-int", a.IntValue() == i && a.QueryIntValue( &j ) == TIXML_SUCCESS && j == i );
    e.RemoveAttribute( n ); ok( "removed-attribute", !e.Attribute( n ) && e.Attribute( other ) ); event( "typed-attributes" );
}
VH_MAIN
