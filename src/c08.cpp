// C08: the XML tree layer behaves as an ordered tree under any edits
#include "common/pbt.h"
#include "common/xml.h"
#include "ezxml/ezxml.h"
#include <algorithm>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

using namespace pbt;
using namespace ezxml;

namespace
{
    struct M;
    using MP = std::shared_ptr<M>;
    struct M
    {
        bool pi = false;
        std::string name, text;
        std::vector<std::pair<std::string, std::string>> attrs;
        std::vector<MP> kids;
        M* parent = nullptr;
        XElementPtr handle; // a handle obtained earlier, kept over later edits
        bool empty() const { return text.empty() && std::none_of( kids.begin(), kids.end(), []( const MP& k ) { return !k->pi; } ); }
        bool hasElements() const { return std::any_of( kids.begin(), kids.end(), []( const MP& k ) { return !k->pi; } ); }
    };
    const std::vector<std::string> names{ "a", "b", "note", "c-d", "e.f", "g_h", "aa", "x:y", "long-element-name", "\xC3\xA9t\xC3\xA9" };
    const std::vector<std::string> attrNames{ "id", "n", "xml:space", "default-x", "z", "aa", "type", "xlink:href" };

    // text that survives a save: no leading/trailing loss is expected, so anything goes except lone white space
    std::string someText( Tape& t )
    {
        std::string s = xml::genText( t, t.chance( 1, 3 ) );
        if( t.chance( 1, 8 ) ) s = " " + s + "  ";
        if( t.chance( 1, 10 ) ) s += "\n\ttail";
        if( s.empty() ) s = "v";
        return s;
    }
    std::string noCarriageReturns( std::string s )
    {
        s.erase( std::remove( s.begin(), s.end(), '\r' ), s.end() );
        return s.empty() ? "v" : s;
    }
    MP genTree( Tape& t, int depth )
    {
        auto m = std::make_shared<M>();
        m->name = t.pick( names );
        std::vector<std::string> free = attrNames;
        while( t.more( 1 ) && !free.empty() )
        {
            size_t i = t.below( (uint32_t)free.size() );
            m->attrs.emplace_back( free[i], t.chance( 1, 6 ) ? std::string() : noCarriageReturns( someText( t ) ) );
            free.erase( free.begin() + i );
        }
        switch( t.weighted( { 2, 3, depth > 0 ? 5u : 0u } ) )
        {
            case 1: m->text = someText( t ); break;
            case 2:
                while( t.more( 2.5 ) )
                {
                    if( t.chance( 1, 5 ) )
                    {
                        auto p = std::make_shared<M>();
                        p->pi = true;
                        p->name = t.pick( { "pi", "target", "php" } );
                        p->text = t.pick( { "data", "a=\"b\" <c>", "x & y", "123" } );
                        p->parent = m.get();
                        m->kids.push_back( p );
                    }
                    else
                    {
                        auto k = genTree( t, depth - 1 );
                        k->parent = m.get();
                        m->kids.push_back( k );
                    }
                }
                break;
            default: break;
        }
        return m;
    }
    std::string esc( const std::string& s, bool attr )
    {
        std::string o;
        for( char c : s )
            switch( c )
            {
                case '&': o += "&amp;"; break;
                case '<': o += "&lt;"; break;
                case '>': o += "&gt;"; break;
                case '"': o += "&quot;"; break;
                case '\n': o += attr ? "&#10;" : "\n"; break;
                case '\t': o += attr ? "&#9;" : "\t"; break;
                case '\r': o += "&#13;"; break;
                default: o += c;
            }
        return o;
    }
    // text in pieces: character data, CDATA sections, character references, comments in between
    std::string noisyText( Tape& t, const std::string& s )
    {
        std::string o;
        size_t i = 0;
        while( i < s.size() )
        {
            size_t n = 1 + t.below( (uint32_t)( s.size() - i ) );
            if( t.chance( 1, 2 ) ) n = s.size() - i;
            while( i + n < s.size() && ( (unsigned char)s[i + n] & 0xC0 ) == 0x80 ) ++n; // whole characters
            // a piece of white space only is not distinguishable from indentation for a reader
            if( s.substr( i + n ).find_first_not_of( " \t\r\n" ) == std::string::npos ) n = s.size() - i;
            std::string piece = s.substr( i, n );
            bool blank = piece.find_first_not_of( " \t\r\n" ) == std::string::npos;
            if( !blank && t.chance( 1, 4 ) && piece.find( "]]>" ) == std::string::npos && piece.find( '\r' ) == std::string::npos ) o += "<![CDATA[" + piece + "]]>";
            else if( blank && n < s.size() ) { piece = s.substr( i ); n = piece.size(); o += esc( piece, false ); }
            else o += esc( piece, false );
            i += n;
            if( i < s.size() && t.chance( 1, 3 ) && s.substr( i ).find_first_not_of( " \t\r\n" ) != std::string::npos ) o += "<!-- split -->";
        }
        return o;
    }
    void write( const M& m, Tape& t, std::string& o, int indent, bool pretty )
    {
        auto nl = [&]( int n ) { if( pretty ) { o += "\n"; o.append( 2 * n, ' ' ); } };
        if( m.pi )
        {
            o += "<?" + m.name + " " + m.text + "?>";
            return;
        }
        o += "<" + m.name;
        for( auto& a : m.attrs )
        {
            o += " " + a.first + "=";
            if( t.chance( 1, 4 ) )
            {
                std::string v = esc( a.second, true );
                std::string q;
                for( char c : v ) if( c == '\'' ) q += "&apos;"; else q += c;
                o += "'" + q + "'";
            }
            else o += "\"" + esc( a.second, true ) + "\"";
        }
        if( m.text.empty() && m.kids.empty() && t.coin() ) { o += "/>"; return; }
        o += ">";
        o += noisyText( t, m.text );
        for( auto& k : m.kids )
        {
            nl( indent + 1 );
            if( t.chance( 1, 8 ) ) o += "<!-- comment <b/> -->";
            write( *k, t, o, indent + 1, pretty );
        }
        if( !m.kids.empty() ) nl( indent );
        o += "</" + m.name + ">";
    }
    std::string show( const M& m, int d = 0 )
    {
        std::string o( 2 * d, ' ' );
        if( m.pi ) return o + "<?" + m.name + " " + m.text + "?>\n";
        o += m.name;
        for( auto& a : m.attrs ) o += " " + a.first + "='" + a.second + "'";
        if( !m.text.empty() ) o += " \"" + m.text + "\"";
        o += "\n";
        for( auto& k : m.kids ) o += show( *k, d + 1 );
        return o;
    }
    size_t total( const M& m )
    {
        size_t n = 1;
        for( auto& k : m.kids ) n += total( *k );
        return n;
    }
    struct Bad { std::string fp, msg; };
    [[noreturn]] void bad( const std::string& fp, const std::string& msg ) { throw Bad{ fp, msg }; }

    // compares an element with the model through every read operation
    void check( const XElement& e, const M& m, bool pis )
    {
        if( e.getIsNull() ) bad( "null", "element " + m.name + " reports null" );
        if( e.getName() != m.name ) bad( "name", "name '" + e.getName() + "' expected '" + m.name + "'" );
        if( e.getIsProcessingInstruction() != m.pi ) bad( "is-pi", "processing instruction flag of " + m.name );
        if( e.getValue() != m.text ) bad( "value", "value of " + m.name + ": '" + e.getValue() + "' expected '" + m.text + "'" );
        if( m.pi ) return;
        XElementType want = !m.text.empty() ? XElementType::text : m.hasElements() ? XElementType::element : XElementType::empty;
        if( e.getType() != want ) bad( "type", "type of " + m.name + ": " + toString( e.getType() ) + " expected " + toString( want ) );
        // attributes
        {
            auto it = e.attributesBegin(), end = e.attributesEnd();
            size_t i = 0;
            for( ; it != end; ++it, ++i )
            {
                if( i >= m.attrs.size() ) bad( "attr-count", "too many attributes on " + m.name );
                if( it->getIsNull() ) bad( "attr-null", "attribute reports null" );
                if( it->getName() != m.attrs[i].first ) bad( "attr-name", "attribute name '" + it->getName() + "' expected '" + m.attrs[i].first + "'" );
                if( ( *it ).getValue() != m.attrs[i].second ) bad( "attr-value", "attribute value '" + it->getValue() + "' expected '" + m.attrs[i].second + "'" );
            }
            if( i != m.attrs.size() ) bad( "attr-count", "missing attributes on " + m.name );
            for( ; i > 0; )
            {
                --it; --i;
                if( it->getName() != m.attrs[i].first ) bad( "attr-back", "walking attributes backwards on " + m.name );
            }
            if( !( it == e.attributesBegin() ) ) bad( "attr-back", "walking attributes backwards does not end at the first" );
        }
        // children
        std::vector<const M*> kids;
        if( m.text.empty() ) for( auto& k : m.kids ) if( pis || !k->pi ) kids.push_back( k.get() );
        auto it = pis ? e.beginWithProcessingInstructions() : e.begin();
        auto end = e.end();
        size_t i = 0;
        for( ; it != end; ++it, ++i )
        {
            if( i >= kids.size() ) bad( "child-count", "too many children of " + m.name );
            check( *it, *kids[i], pis );
        }
        if( i != kids.size() ) bad( "child-count", "missing children of " + m.name + ": " + std::to_string( i ) + " of " + std::to_string( kids.size() ) );
        it.setSkipProcessingInstructions( !pis );
        for( ; i > 0; )
        {
            auto before = it--;
            --i;
            if( i + 1 < kids.size() && before->getName() != kids[i + 1]->name ) bad( "child-back", "post-decrement returns another position" );
            if( it->getName() != kids[i]->name || it->getValue() != kids[i]->text ) bad( "child-back", "walking children of " + m.name + " backwards" );
        }
        if( !( it == ( pis ? e.beginWithProcessingInstructions() : e.begin() ) ) ) bad( "child-back", "walking children backwards does not end at the first" );
    }
    void compareXml( const xml::Node& n, const M& m, const std::string& path )
    {
        if( n.name != m.name ) bad( "saved-name", path + ": '" + n.name + "' expected '" + m.name + "'" );
        if( n.attrs.size() != m.attrs.size() ) bad( "saved-attrs", path + ": attribute count" );
        for( size_t i = 0; i < n.attrs.size(); ++i )
            if( n.attrs[i] != m.attrs[i] ) bad( "saved-attrs", path + ": @" + n.attrs[i].first + "='" + n.attrs[i].second + "' expected @" + m.attrs[i].first + "='" + m.attrs[i].second + "'" );
        std::vector<const M*> kids;
        for( auto& k : m.kids ) if( !k->pi ) kids.push_back( k.get() );
        if( n.kids.size() != kids.size() ) bad( "saved-children", path + ": child count" );
        if( kids.empty() && m.kids.empty() && n.text != m.text ) bad( "saved-text", path + ": '" + n.text + "' expected '" + m.text + "'" );
        for( size_t i = 0; i < kids.size(); ++i ) compareXml( n.kids[i], *kids[i], path + "/" + kids[i]->name );
    }
    MP copyOf( const M& m )
    {
        auto c = std::make_shared<M>( m );
        c->handle = nullptr;
        for( auto& k : c->kids )
        {
            k = copyOf( *k );
            k->parent = c.get();
        }
        return c;
    }
    void collect( const MP& m, std::vector<M*>& out )
    {
        out.push_back( m.get() );
        for( auto& k : m->kids ) collect( k, out );
    }
    // an element for the model node, found by walking from the root
    XElementPtr find( const XDoc& doc, const M* m, Tape& t )
    {
        if( !m->parent ) return doc.getRoot();
        auto p = find( doc, m->parent, t );
        size_t index = 0;
        while( m->parent->kids[index].get() != m ) ++index;
        if( t.coin() )
        {
            auto it = p->beginWithProcessingInstructions();
            for( size_t i = 0; i < index; ++i )
            {
                if( it == p->end() ) bad( "find", "child not reachable by iteration" );
                ++it;
            }
            return it->clone();
        }
        auto it = p->beginWithProcessingInstructions();
        if( it == p->end() ) bad( "find", "child not reachable" );
        XElementPtr e = it->clone();
        for( size_t i = 0; i < index; ++i )
        {
            e = e->getNextSibling();
            if( !e ) bad( "sibling", "next sibling missing" );
        }
        return e;
    }
    template <class F> bool throws( F f )
    {
        try { f(); }
        catch( const std::exception& ) { return true; }
        return false;
    }
    // utf-16 (little endian) of a utf-8 text
    std::string utf16( const std::string& s, bool bigEndian, bool bom )
    {
        std::string o;
        auto unit = [&]( unsigned u ) {
            char hi = (char)( u >> 8 ), lo = (char)( u & 255 );
            if( bigEndian ) { o += hi; o += lo; } else { o += lo; o += hi; }
        };
        if( bom ) unit( 0xFEFF );
        for( size_t i = 0; i < s.size(); )
        {
            unsigned char c = s[i];
            int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
            unsigned u = n == 1 ? c : c & ( 0xFF >> ( n + 1 ) );
            for( int k = 1; k < n; ++k ) u = u << 6 | ( s[i + k] & 0x3F );
            i += n;
            if( u >= 0x10000 ) { u -= 0x10000; unit( 0xD800 + ( u >> 10 ) ); unit( 0xDC00 + ( u & 0x3FF ) ); }
            else unit( u );
        }
        return o;
    }

    struct World
    {
        XDocPtr doc = XFactory::makeXDoc();
        MP root;
        XmlVersion version = XmlVersion::onePointZero;
        bool hasStandalone = false, standalone = false, hasDoctype = false, bom = false;
        Encoding encoding = Encoding::utfEight;
        std::string doctype;
    };
    void checkAll( World& w, bool pis )
    {
        auto r = w.doc->getRoot();
        if( !r ) bad( "root", "no root" );
        check( *r, *w.root, pis );
        if( w.doc->getXmlVersion() != w.version ) bad( "xml-version", "xml version differs from the one set" );
        if( w.doc->getEncoding() != w.encoding ) bad( "encoding", "encoding differs from the one set" );
        if( w.doc->getHasStandaloneAttribute() != w.hasStandalone ) bad( "standalone", "presence of the standalone attribute" );
        if( w.doc->getIsStandalone() != w.standalone ) bad( "standalone", "standalone value" );
        if( w.doc->getHasDoctypeDeclaration() != w.hasDoctype ) bad( "doctype", "presence of the document type" );
        if( w.doc->getDoctypeValue() != w.doctype ) bad( "doctype", "document type '" + w.doc->getDoctypeValue() + "' expected '" + w.doctype + "'" );
    }
    void load( World& w, Tape& t, Ctx& c, std::string& log )
    {
        w.root = genTree( t, 3 );
        std::string body;
        if( t.chance( 3, 4 ) )
        {
            body += "<?xml version=\"";
            bool onePointOne = t.chance( 1, 6 );
            w.version = onePointOne ? XmlVersion::onePointOne : XmlVersion::onePointZero;
            body += onePointOne ? "1.1\"" : "1.0\"";
            if( t.coin() ) body += t.coin() ? " encoding=\"UTF-8\"" : " encoding='utf-8'";
            if( t.chance( 1, 3 ) )
            {
                w.hasStandalone = true;
                w.standalone = t.coin();
                body += w.standalone ? " standalone=\"yes\"" : " standalone=\"no\"";
            }
            else w.hasStandalone = w.standalone = false;
            body += "?>";
            if( t.coin() ) body += "\n";
        }
        else
        {
            w.version = XmlVersion::onePointZero;
            w.hasStandalone = w.standalone = false;
        }
        if( t.chance( 1, 6 ) ) body += "<!-- prologue -->\n";
        if( t.chance( 1, 5 ) ) { body += "<?xml-stylesheet href=\"x.xsl\"?>\n"; c.tag( "prologue-pi" ); }
        w.hasDoctype = t.chance( 1, 3 );
        w.doctype = "";
        if( w.hasDoctype )
        {
            w.doctype = w.root->name + t.pick( { "", " SYSTEM \"x.dtd\"", " PUBLIC \"-//Recordare//DTD MusicXML 3.0 Partwise//EN\" \"http://www.musicxml.org/dtds/partwise.dtd\"" } );
            body += "<!DOCTYPE " + w.doctype + ">\n";
        }
        write( *w.root, t, body, 0, t.coin() );
        if( t.chance( 1, 4 ) ) body += "\n<!-- end -->\n";
        w.encoding = Encoding::utfEight;
        int kind = (int)t.weighted( { 6, 1, 1, 1, 1 } );
        std::string bytes = body;
        if( kind == 1 ) bytes = "\xEF\xBB\xBF" + body;
        if( kind >= 2 )
        {
            size_t p = body.find( "utf-8" );
            if( p == std::string::npos ) p = body.find( "UTF-8" );
            std::string b = body;
            if( p != std::string::npos && p < 60 ) b.replace( p, 5, "UTF-16" );
            bytes = utf16( b, kind == 3, kind != 4 );
            c.tag( "utf-16" );
        }
        log += "load(" + std::to_string( kind ) + "):\n" + body + "\n";
        c.input( log );
        w.doc = XFactory::makeXDoc();
        try
        {
            if( t.coin() )
            {
                std::istringstream is( bytes );
                w.doc->loadStream( is );
            }
            else
            {
                std::string f = scratchDir() + "/c08-" + std::to_string( getpid() ) + ".xml";
                { std::ofstream o( f, std::ios::binary ); o << bytes; }
                struct Gone { std::string f; ~Gone() { ::unlink( f.c_str() ); } } gone{ f };
                w.doc->loadFile( f );
                c.tag( "load-file" );
            }
        }
        catch( const std::exception& e )
        {
            bad( "load", std::string( "well-formed document refused: " ) + e.what() );
        }
    }

    void history( Tape& t, Ctx& c )
    {
        World w;
        std::string log;
        size_t edits = 0, misuses = 0, saves = 0;
        try
        {
            if( t.chance( 2, 3 ) ) load( w, t, c, log );
            else
            {
                w.root = std::make_shared<M>();
                w.root->name = "root";
            }
            c.input( log );
            checkAll( w, false );
            checkAll( w, true );
            int steps = 5 + (int)t.below( 40 );
            for( int s = 0; s < steps && !( t.exhausted() && s > 60 ); ++s )
            {
                std::vector<M*> all;
                collect( w.root, all );
                M* m = t.pick( all );
                if( m->pi ) m = m->parent;
                XElementPtr e;
                if( m->handle && t.chance( 2, 3 ) ) { e = m->handle; c.tag( "old-handle" ); }
                else e = find( *w.doc, m, t );
                if( t.chance( 1, 3 ) ) m->handle = e;
                std::string at = m->name + "@" + std::to_string( std::find( all.begin(), all.end(), m ) - all.begin() );
                auto note = [&]( const std::string& op ) { log += at + "." + op + "\n"; c.input( log ); };
                auto child = [&]( bool front, const std::string& n, const std::string& v ) {
                    auto k = std::make_shared<M>();
                    k->name = n;
                    k->text = v;
                    k->parent = m;
                    m->kids.insert( front ? m->kids.begin() : m->kids.end(), k );
                    return k;
                };
                switch( t.weighted( { 6, 4, 4, 3, 2, 5, 4, 3, 3, 3, 1, 2, 1, 2, 1, 1 } ) )
                {
                    case 0: // append
                    case 1: // prepend
                    {
                        bool front = t.coin();
                        std::string n = t.pick( names );
                        note( std::string( front ? "prependChild(" : "appendChild(" ) + n + ")" );
                        if( !m->text.empty() )
                        {
                            ++misuses;
                            if( !throws( [&] { front ? e->prependChild( n ) : e->appendChild( n ); } ) ) bad( "child-of-text", "adding a child to an element with text is documented to throw" );
                            break;
                        }
                        auto x = front ? e->prependChild( n ) : e->appendChild( n );
                        ++edits;
                        auto k = child( front, n, "" );
                        if( t.coin() )
                        {
                            k->text = someText( t );
                            x->setValue( k->text );
                            note( "child.setValue(" + k->text + ")" );
                        }
                        if( t.coin() ) k->handle = x;
                        check( *x, *k, false );
                        break;
                    }
                    case 2: // insert after
                    {
                        std::string n = t.pick( names );
                        note( "insertSiblingAfter(" + n + ")" );
                        if( !m->parent )
                        {
                            ++misuses;
                            if( !throws( [&] { e->insertSiblingAfter( n ); } ) ) bad( "sibling-of-root", "adding a sibling to the root is documented to throw" );
                            break;
                        }
                        auto x = e->insertSiblingAfter( n );
                        ++edits;
                        auto k = std::make_shared<M>();
                        k->name = n;
                        k->parent = m->parent;
                        auto& v = m->parent->kids;
                        auto pos = std::find_if( v.begin(), v.end(), [&]( const MP& p ) { return p.get() == m; } );
                        v.insert( pos + 1, k );
                        k->handle = x;
                        check( *x, *k, false );
                        break;
                    }
                    case 3: // remove a child by name
                    {
                        std::string n = t.pick( names );
                        if( m->text.empty() && !m->kids.empty() && t.chance( 3, 4 ) )
                        {
                            auto k = t.pick( m->kids );
                            if( !k->pi ) n = k->name;
                        }
                        auto pos = std::find_if( m->kids.begin(), m->kids.end(), [&]( const MP& p ) { return !p->pi && p->name == n; } );
                        bool there = pos != m->kids.end();
                        note( "removeChild(" + n + ")" );
                        if( e->removeChild( n ) != there ) bad( "remove-result", "removeChild(" + n + ") reports the wrong result" );
                        if( there ) { m->kids.erase( pos ); ++edits; }
                        break;
                    }
                    case 4:
                    {
                        std::string n = t.pick( names );
                        note( "setName(" + n + ")" );
                        e->setName( n );
                        m->name = n;
                        if( !m->parent && w.hasDoctype ) // keep the document well-formed for other readers
                        {
                            w.doctype = n;
                            w.doc->setDoctypeValue( n );
                        }
                        ++edits;
                        break;
                    }
                    case 5:
                    {
                        std::string v = t.chance( 1, 5 ) ? std::string() : someText( t );
                        note( "setValue(" + v + ")" );
                        if( m->hasElements() )
                        {
                            ++misuses;
                            if( !throws( [&] { e->setValue( v ); } ) ) bad( "text-of-parent", "an element with children accepted text" );
                            break;
                        }
                        if( !m->kids.empty() ) break; // processing instructions next to text: not covered
                        e->setValue( v );
                        m->text = v;
                        ++edits;
                        break;
                    }
                    case 6: // attribute
                    {
                        std::string n = t.pick( attrNames );
                        if( std::any_of( m->attrs.begin(), m->attrs.end(), [&]( auto& a ) { return a.first == n; } ) ) break;
                        bool front = t.coin();
                        std::string v = t.chance( 1, 6 ) ? std::string() : someText( t );
                        note( std::string( front ? "prependAttribute(" : "appendAttribute(" ) + n + "='" + v + "')" );
                        auto a = front ? e->prependAttribute( n ) : e->appendAttribute( n );
                        a->setValue( v );
                        if( a->getName() != n || a->getValue() != v ) bad( "new-attr", "new attribute does not carry its name and value" );
                        m->attrs.insert( front ? m->attrs.begin() : m->attrs.end(), { n, v } );
                        ++edits;
                        break;
                    }
                    case 7: // change an attribute through an iterator
                    {
                        if( m->attrs.empty() ) break;
                        size_t i = t.below( (uint32_t)m->attrs.size() );
                        auto it = e->attributesBegin();
                        for( size_t k = 0; k < i; ++k ) it++;
                        if( t.coin() )
                        {
                            std::string v = someText( t );
                            note( "attribute[" + std::to_string( i ) + "].setValue(" + v + ")" );
                            it->setValue( v );
                            m->attrs[i].second = v;
                        }
                        else
                        {
                            std::string n = t.pick( attrNames );
                            if( std::any_of( m->attrs.begin(), m->attrs.end(), [&]( auto& a ) { return a.first == n; } ) ) break;
                            note( "attribute[" + std::to_string( i ) + "].setName(" + n + ")" );
                            it->setName( n );
                            m->attrs[i].first = n;
                        }
                        ++edits;
                        break;
                    }
                    case 8: // remove an attribute
                    {
                        if( m->attrs.empty() ) break;
                        size_t i = t.below( (uint32_t)m->attrs.size() );
                        auto it = e->attributesBegin();
                        for( size_t k = 0; k < i; ++k ) ++it;
                        note( "removeAttribute(" + m->attrs[i].first + ")" );
                        e->removeAttribute( it );
                        m->attrs.erase( m->attrs.begin() + i );
                        ++edits;
                        break;
                    }
                    case 9: // relatives
                    {
                        note( "relatives" );
                        auto p = e->getParent();
                        if( !p ) bad( "parent", "no parent element returned" );
                        if( !m->parent )
                        {
                            if( p->getType() != XElementType::null || !p->getIsNull() ) bad( "root-parent", "the parent of the root is not of type null" );
                        }
                        else if( p->getName() != m->parent->name || p->getIsNull() ) bad( "parent", "parent has another name" );
                        if( m->parent )
                        {
                            check( *p, *m->parent, t.coin() );
                            auto& v = m->parent->kids;
                            auto pos = std::find_if( v.begin(), v.end(), [&]( const MP& q ) { return q.get() == m; } ) + 1;
                            auto x = e->getNextSibling();
                            if( ( pos == v.end() ) != !x ) bad( "sibling", "next sibling of " + at );
                            if( x ) check( *x, **pos, t.coin() );
                        }
                        if( e->getDoc().get() != w.doc.get() ) bad( "doc", "getDoc is another document" );
                        auto cl = e->clone();
                        check( *cl, *m, false );
                        break;
                    }
                    case 10: // dereferencing an end iterator
                    {
                        ++misuses;
                        note( "end()->getName()" );
                        if( !throws( [&] { e->end()->getName(); } ) ) bad( "end-deref", "dereferencing an element end iterator did not throw" );
                        if( !throws( [&] { e->attributesEnd()->getName(); } ) ) bad( "end-deref", "dereferencing an attribute end iterator did not throw" );
                        break;
                    }
                    case 11: // declaration
                    {
                        switch( t.below( 6 ) )
                        {
                            case 0:
                                w.version = t.coin() ? XmlVersion::onePointOne : XmlVersion::onePointZero;
                                note( "setXmlVersion" );
                                w.doc->setXmlVersion( w.version );
                                break;
                            case 1:
                                w.encoding = t.coin() ? Encoding::utfSixteen : Encoding::utfEight;
                                note( "setEncoding " + toString( w.encoding ) );
                                w.doc->setEncoding( w.encoding );
                                break;
                            case 2:
                                w.hasStandalone = t.coin();
                                if( !w.hasStandalone ) w.standalone = false;
                                note( std::string( "setHasStandaloneAttribute " ) + ( w.hasStandalone ? "1" : "0" ) );
                                w.doc->setHasStandaloneAttribute( w.hasStandalone );
                                break;
                            case 3:
                                w.hasStandalone = true;
                                w.standalone = t.coin();
                                note( std::string( "setIsStandalone " ) + ( w.standalone ? "1" : "0" ) );
                                w.doc->setIsStandalone( w.standalone );
                                break;
                            case 4:
                                w.hasDoctype = true;
                                w.doctype = w.root->name + t.pick( { "", " SYSTEM \"other.dtd\"" } );
                                note( "setDoctypeValue " + w.doctype );
                                w.doc->setDoctypeValue( w.doctype );
                                break;
                            default:
                                w.hasDoctype = false;
                                w.doctype = "";
                                note( "setHasDoctypeDeclaration 0" );
                                w.doc->setHasDoctypeDeclaration( false );
                                break;
                        }
                        ++edits;
                        break;
                    }
                    case 12: // unknown values are refused
                    {
                        ++misuses;
                        note( "set unknown" );
                        if( !throws( [&] { w.doc->setXmlVersion( XmlVersion::unknown ); } ) ) bad( "unknown", "unknown xml version accepted" );
                        if( !throws( [&] { w.doc->setEncoding( Encoding::unknown ); } ) ) bad( "unknown", "unknown encoding accepted" );
                        break;
                    }
                    case 13: // save; read by libxml2 and by the library itself
                    {
                        ++saves;
                        w.bom = t.chance( 1, 4 );
                        w.doc->setDoWriteByteOrderMark( w.bom );
                        bool file = t.chance( 1, 3 );
                        note( file ? "saveFile" : "saveStream" );
                        std::string out;
                        std::string f = scratchDir() + "/c08-" + std::to_string( getpid() ) + ".xml";
                        struct Gone { std::string f; ~Gone() { ::unlink( f.c_str() ); } } gone{ f };
                        if( file )
                        {
                            if( t.coin() ) { std::ofstream o( f ); o << std::string( 5000, 'x' ); } // an older, longer file is replaced
                            w.doc->saveFile( f );
                            out = readFile( f );
                        }
                        else
                        {
                            std::ostringstream os;
                            w.doc->saveStream( os );
                            out = os.str();
                        }
                        bool wide = w.encoding == Encoding::utfSixteen;
                        std::string mark = wide ? std::string( "\xFF\xFE", 2 ) : std::string( "\xEF\xBB\xBF" );
                        if( w.bom != ( out.compare( 0, mark.size(), mark ) == 0 ) ) bad( "bom", w.bom ? "no byte order mark although requested" : "byte order mark although not requested" );
                        auto r = xml::parse( out );
                        if( !r.ok ) bad( "saved-malformed", "saved document is not well-formed: " + r.error + "\n" + out );
                        compareXml( r.root, *w.root, w.root->name );
                        if( w.hasDoctype )
                        {
                            if( r.doctypeName != w.doctype.substr( 0, w.doctype.find( ' ' ) ) ) bad( "saved-doctype", "document type name '" + r.doctypeName + "'" );
                        }
                        else if( !r.doctypeName.empty() ) bad( "saved-doctype", "unexpected document type" );
                        World v;
                        v.root = copyOf( *w.root );
                        v.version = w.version;
                        v.hasStandalone = w.hasStandalone;
                        v.standalone = w.standalone;
                        v.hasDoctype = w.hasDoctype;
                        v.doctype = w.doctype;
                        if( file ) v.doc->loadFile( f );
                        else
                        {
                            std::istringstream is( out );
                            v.doc->loadStream( is );
                        }
                        v.encoding = v.doc->getEncoding(); // the encoding of a document in memory is its reader's choice
                        checkAll( v, true );
                        if( t.chance( 1, 3 ) ) { note( "continue with the reloaded document" ); w = v; }
                        break;
                    }
                    case 14: // impossible files
                    {
                        ++misuses;
                        note( "impossible files" );
                        std::string d = scratchDir() + "/c08-none-" + std::to_string( getpid() );
                        auto x = XFactory::makeXDoc();
                        if( !throws( [&] { x->loadFile( d + "/missing.xml" ); } ) ) bad( "missing-file", "loading a missing file did not throw" );
                        if( !throws( [&] { w.doc->saveFile( d + "/missing/out.xml" ); } ) ) bad( "missing-dir", "saving into a missing directory did not throw" );
                        break;
                    }
                    default: // malformed text
                    {
                        ++misuses;
                        std::string b = t.pick( { "", "   ", "<a>", "<a></b>", "<a><b></a></b>", "<a x=1/>", "<a x='1' / >", "<?xml version='1.0'?>", "text", "<a>&lt;", "<!-- only -->", "<a/", "<a b='c>", "<![CDATA[x", "<!DOCTYPE a", "<a><!-- </a>" } );
                        note( "load malformed '" + b + "'" );
                        auto x = XFactory::makeXDoc();
                        std::istringstream is( b );
                        if( !throws( [&] { x->loadStream( is ); } ) ) bad( "malformed", "malformed text '" + b + "' was read without an exception" );
                        break;
                    }
                }
                checkAll( w, t.coin() );
            }
            // elements of a document that is gone
            if( t.chance( 1, 2 ) )
            {
                std::vector<M*> all;
                collect( w.root, all );
                M* m = t.pick( all );
                if( !m->pi )
                {
                    auto e = find( *w.doc, m, t );
                    XAttributePtr a;
                    if( !m->attrs.empty() ) a = nullptr;
                    for( auto x : all ) x->handle = nullptr;
                    auto added = e->appendAttribute( "last-one" );
                    log += "document destroyed, element kept\n";
                    c.input( log );
                    w.doc = nullptr;
                    ++misuses;
                    if( !e->getIsNull() || e->getType() != XElementType::null ) bad( "orphan", "an element of a destroyed document is not null" );
                    if( !e->getName().empty() || !e->getValue().empty() ) bad( "orphan", "an element of a destroyed document still has content" );
                    if( e->getDoc() ) bad( "orphan", "document still there" );
                    e->setName( "x" );
                    e->setValue( "x" );
                    if( !throws( [&] { e->appendChild( "x" ); } ) || !throws( [&] { e->prependChild( "x" ); } ) || !throws( [&] { e->insertSiblingAfter( "x" ); } )
                        || !throws( [&] { e->begin(); } ) || !throws( [&] { e->attributesBegin(); } ) || !throws( [&] { e->appendAttribute( "x" ); } )
                        || !throws( [&] { e->removeChild( "x" ); } ) || !throws( [&] { e->getParent(); } ) || !throws( [&] { e->getNextSibling(); } ) )
                        bad( "orphan", "an operation on an element of a destroyed document did not throw" );
                    if( !e->clone()->getIsNull() ) bad( "orphan", "a copy of an element of a destroyed document is not null" );
                    if( !added->getIsNull() ) bad( "orphan", "an attribute of a destroyed document is not null" );
                    if( !added->getName().empty() || !added->getValue().empty() ) bad( "orphan", "an attribute of a destroyed document still has content" );
                    added->setName( "y" );
                    added->setValue( "y" );
                    c.tag( "orphans" );
                }
            }
        }
        catch( const Bad& b )
        {
            c.fail( b.fp, b.msg + "\nmodel:\n" + ( w.root ? show( *w.root ) : "" ) );
        }
        catch( const Discard& ) { throw; }
        catch( const std::exception& e )
        {
            c.fail( "exception", std::string( "unexpected exception: " ) + e.what() + "\nmodel:\n" + ( w.root ? show( *w.root ) : "" ) );
        }
        c.tag( "edits", edits );
        c.tag( "misuses", misuses );
        c.tag( "saves", saves );
        if( edits >= 3 && total( *w.root ) >= 3 ) c.nontrivial( log );
    }
    PBT_PROPERTY( { "C08", "histories", "a history with at least three successful edits on a tree of at least three nodes, distinct by history", history, 20000, 600000 } );
}
