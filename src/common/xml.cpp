#include "common/xml.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xmlschemas.h>
#include <set>
#include <sstream>
#include <unistd.h>
#include <unordered_map>

namespace xml
{
    using pbt::Tape;

    std::string xsdPath() { return pbt::verifDir() + "/data/musicxml.xsd"; }

    std::string escapeText( const std::string& s )
    {
        std::string o;
        for( char c : s )
        {
            if( c == '<' ) o += "&lt;";
            else if( c == '>' ) o += "&gt;";
            else if( c == '&' ) o += "&amp;";
            else if( c == '\r' ) o += "&#13;";
            else o += c;
        }
        return o;
    }
    std::string escapeAttr( const std::string& s )
    {
        std::string o;
        for( char c : s )
        {
            if( c == '<' ) o += "&lt;";
            else if( c == '>' ) o += "&gt;";
            else if( c == '&' ) o += "&amp;";
            else if( c == '"' ) o += "&quot;";
            else if( c == '\n' ) o += "&#10;";
            else if( c == '\r' ) o += "&#13;";
            else if( c == '\t' ) o += "&#9;";
            else o += c;
        }
        return o;
    }
    static void ser( const Node& n, std::string& o, int depth )
    {
        o.append( depth, ' ' );
        o += "<" + n.name;
        for( auto& a : n.attrs ) o += " " + a.first + "=\"" + escapeAttr( a.second ) + "\"";
        if( n.kids.empty() )
        {
            if( n.text.empty() ) o += "/>\n";
            else o += ">" + escapeText( n.text ) + "</" + n.name + ">\n";
            return;
        }
        o += ">\n";
        for( auto& k : n.kids ) ser( k, o, depth + 1 );
        o.append( depth, ' ' );
        o += "</" + n.name + ">\n";
    }
    std::string serialize( const Node& n, bool header )
    {
        std::string o;
        if( header ) o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
        ser( n, o, 0 );
        return o;
    }

    static std::string noisyChars( const std::string& s, Tape& t, bool attr, char quote )
    {
        std::string o;
        const bool refs = t.chance( 1, 6 );
        for( size_t i = 0; i < s.size(); ++i )
        {
            unsigned char c = (unsigned char)s[i];
            if( c == '<' ) o += t.coin() ? "&#60;" : "&lt;";
            else if( c == '&' ) o += t.coin() ? "&#x26;" : "&amp;";
            else if( c == '>' ) o += "&gt;";
            else if( attr && c == (unsigned char)quote ) o += quote == '"' ? "&quot;" : "&apos;";
            else if( attr && ( c == '\n' || c == '\t' || c == '\r' ) ) o += "&#" + std::to_string( (int)c ) + ";";
            else if( c == '\r' ) o += "&#13;";
            else if( refs && c > 32 && c < 127 && t.chance( 1, 4 ) ) o += "&#" + std::to_string( (int)c ) + ";";
            else o += (char)c;
        }
        return o;
    }
    static void serNoisy( const Node& n, std::string& o, Tape& t, int style )
    {
        auto ws = [&]() {
            if( style == 0 ) return std::string( "\n" );
            switch( t.below( 4 ) )
            {
                case 0: return std::string();
                case 1: return std::string( "\n    " );
                case 2: return std::string( "\r\n\t" );
                default: return std::string( "\n" );
            }
        };
        o += "<" + n.name;
        std::vector<std::pair<std::string, std::string>> attrs = n.attrs;
        if( style > 0 && attrs.size() > 1 )
        {
            size_t r = t.below( (uint32_t)attrs.size() );
            std::rotate( attrs.begin(), attrs.begin() + r, attrs.end() );
        }
        for( auto& a : attrs )
        {
            char q = style > 0 && t.chance( 1, 4 ) ? '\'' : '"';
            o += style > 0 && t.chance( 1, 6 ) ? "\n  " : " ";
            o += a.first;
            if( style > 0 && t.chance( 1, 8 ) ) o += " = ";
            else o += "=";
            o += q + noisyChars( a.second, t, true, q ) + q;
        }
        if( n.kids.empty() )
        {
            if( n.text.empty() )
            {
                if( style > 0 && t.chance( 1, 4 ) ) o += "></" + n.name + ">";
                else o += "/>";
                return;
            }
            o += ">";
            if( style > 0 && t.chance( 1, 10 ) && n.text.find( "]]>" ) == std::string::npos && n.text.find( '\r' ) == std::string::npos )
                o += "<![CDATA[" + n.text + "]]>";
            else o += noisyChars( n.text, t, false, 0 );
            o += "</" + n.name + ">";
            return;
        }
        o += ">";
        for( auto& k : n.kids )
        {
            o += ws();
            if( style > 1 && t.chance( 1, 12 ) ) o += "<!-- c " + std::to_string( t.below( 100 ) ) + " <x a='1'> -->";
            serNoisy( k, o, t, style );
        }
        o += ws();
        o += "</" + n.name + ">";
    }
    std::string serializeNoisy( const Node& n, Tape& t )
    {
        std::string o;
        const int style = (int)t.below( 3 );
        if( style > 0 && t.chance( 1, 8 ) ) o += "\xef\xbb\xbf";
        if( style == 0 || !t.chance( 1, 6 ) ) o += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
        if( t.coin() )
        {
            o += n.name == "score-partwise"
                     ? "<!DOCTYPE score-partwise PUBLIC \"-//Recordare//DTD MusicXML 3.0 Partwise//EN\" \"http://www.musicxml.org/dtds/partwise.dtd\">\n"
                     : "<!DOCTYPE score-timewise PUBLIC \"-//Recordare//DTD MusicXML 3.0 Timewise//EN\" \"http://www.musicxml.org/dtds/timewise.dtd\">\n";
        }
        if( style > 1 && t.chance( 1, 6 ) ) o += "<!-- a comment -->\n";
        serNoisy( n, o, t, style );
        if( style > 0 && t.coin() ) o += "\n";
        return o;
    }

    // ---- libxml2 -----------------------------------------------------------------------------
    static void toNode( xmlNodePtr x, Node& n )
    {
        if( x->ns && x->ns->prefix ) n.name = std::string( (const char*)x->ns->prefix ) + ":" + (const char*)x->name;
        else n.name = (const char*)x->name;
        for( xmlNsPtr ns = x->nsDef; ns; ns = ns->next )
            n.attrs.emplace_back( ns->prefix ? std::string( "xmlns:" ) + (const char*)ns->prefix : "xmlns", ns->href ? (const char*)ns->href : "" );
        for( xmlAttrPtr a = x->properties; a; a = a->next )
        {
            std::string an = a->ns && a->ns->prefix ? std::string( (const char*)a->ns->prefix ) + ":" + (const char*)a->name : (const char*)a->name;
            xmlChar* v = xmlNodeListGetString( x->doc, a->children, 1 );
            n.attrs.emplace_back( an, v ? (const char*)v : "" );
            if( v ) xmlFree( v );
        }
        bool kids = false;
        for( xmlNodePtr c = x->children; c; c = c->next )
        {
            if( c->type == XML_ELEMENT_NODE )
            {
                kids = true;
                n.kids.emplace_back();
                toNode( c, n.kids.back() );
            }
            else if( ( c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE ) && c->content ) n.text += (const char*)c->content;
        }
        if( kids ) n.text.clear();
    }

    static void quiet( void*, const char*, ... ) {}
    struct ErrSink
    {
        std::string text;
        std::vector<std::string> undeclared;
        bool fatal = false;
    };
    static thread_local ErrSink* tSink = nullptr;
    static void onError( void*, xmlErrorPtr e )
    {
        if( !tSink || !e ) return;
        if( e->domain == XML_FROM_NAMESPACE )
        {
            tSink->undeclared.push_back( e->message ? e->message : "" );
            return;
        }
        if( e->level >= XML_ERR_ERROR && tSink->text.size() < 4000 )
        {
            tSink->text += "line " + std::to_string( e->line ) + ": " + ( e->message ? e->message : "?" );
        }
    }
    static void initLib()
    {
        static bool done = [] {
            xmlInitParser();
            xmlSetGenericErrorFunc( nullptr, quiet );
            return true;
        }();
        (void)done;
    }
    static xmlDocPtr parseDoc( const std::string& text, ErrSink& sink )
    {
        initLib();
        tSink = &sink;
        xmlSetStructuredErrorFunc( nullptr, onError );
        xmlDocPtr d = xmlReadMemory( text.data(), (int)text.size(), "doc.xml", nullptr, XML_PARSE_NONET | XML_PARSE_HUGE );
        xmlSetStructuredErrorFunc( nullptr, nullptr );
        tSink = nullptr;
        return d;
    }
    ParseResult parse( const std::string& text )
    {
        ParseResult r;
        ErrSink sink;
        xmlDocPtr d = parseDoc( text, sink );
        r.undeclaredPrefixes = sink.undeclared;
        if( !d || !sink.text.empty() )
        {
            r.error = sink.text.empty() ? "not well-formed" : sink.text;
            if( d ) xmlFreeDoc( d );
            return r;
        }
        xmlNodePtr root = xmlDocGetRootElement( d );
        if( root )
        {
            toNode( root, r.root );
            r.ok = true;
        }
        if( d->intSubset )
        {
            if( d->intSubset->name ) r.doctypeName = (const char*)d->intSubset->name;
            if( d->intSubset->ExternalID ) r.doctypePublic = (const char*)d->intSubset->ExternalID;
            if( d->intSubset->SystemID ) r.doctypeSystem = (const char*)d->intSubset->SystemID;
        }
        if( d->encoding ) r.encoding = (const char*)d->encoding;
        xmlFreeDoc( d );
        return r;
    }

    static xmlSchemaPtr schema()
    {
        static xmlSchemaPtr s = [] {
            initLib();
            xmlSchemaParserCtxtPtr p = xmlSchemaNewParserCtxt( xsdPath().c_str() );
            xmlSchemaPtr r = xmlSchemaParse( p );
            xmlSchemaFreeParserCtxt( p );
            if( !r )
            {
                std::cerr << "the schema " << xsdPath() << " does not load\n";
                _exit( 74 );
            }
            return r;
        }();
        return s;
    }
    std::string validate( const std::string& text )
    {
        ErrSink sink;
        xmlDocPtr d = parseDoc( text, sink );
        if( !d || !sink.text.empty() )
        {
            if( d ) xmlFreeDoc( d );
            return "not well-formed: " + sink.text;
        }
        xmlSchemaValidCtxtPtr v = xmlSchemaNewValidCtxt( schema() );
        ErrSink vs;
        tSink = &vs;
        xmlSchemaSetValidStructuredErrors( v, (xmlStructuredErrorFunc)onError, nullptr );
        int rc = xmlSchemaValidateDoc( v, d );
        tSink = nullptr;
        xmlSchemaFreeValidCtxt( v );
        xmlFreeDoc( d );
        if( rc == 0 ) return {};
        return vs.text.empty() ? "schema validation returned " + std::to_string( rc ) : vs.text;
    }

    // ---- grammar -----------------------------------------------------------------------------
    bool SType::numeric() const
    {
        if( !members.empty() || !enums.empty() ) return false;
        return base == "decimal" || integral();
    }
    bool SType::integral() const
    {
        return members.empty() && enums.empty() && ( base == "integer" || base == "positiveInteger" || base == "nonNegativeInteger" );
    }

    namespace
    {
        struct Builder
        {
            Grammar g;
            std::map<std::string, const Node*> simple, complex, groups, attrGroups, elements;
            std::map<std::string, const CType*> complexDone;
            std::map<std::string, CType*> complexBusy;

            const SType* builtin( const std::string& n )
            {
                auto it = g.simpleByName.find( "xs:" + n );
                if( it != g.simpleByName.end() ) return it->second;
                auto s = std::make_unique<SType>();
                s->name = "xs:" + n;
                s->base = n;
                if( n == "positiveInteger" ) { s->hasMin = true; s->min = 1; }
                if( n == "nonNegativeInteger" ) { s->hasMin = true; s->min = 0; }
                const SType* r = s.get();
                g.stypes.push_back( std::move( s ) );
                g.simpleByName["xs:" + n] = r;
                return r;
            }
            const SType* simpleType( const std::string& n )
            {
                if( n.compare( 0, 3, "xs:" ) == 0 ) return builtin( n.substr( 3 ) );
                auto it = g.simpleByName.find( n );
                if( it != g.simpleByName.end() ) return it->second;
                auto nt = simple.find( n );
                if( nt == simple.end() ) return nullptr;
                const SType* s = buildSimple( *nt->second, n );
                g.simpleByName[n] = s;
                return s;
            }
            const SType* buildSimple( const Node& x, const std::string& name )
            {
                auto s = std::make_unique<SType>();
                s->name = name;
                if( const Node* u = x.child( "xs:union" ) )
                {
                    if( auto m = u->attr( "memberTypes" ) )
                    {
                        std::stringstream ss( *m );
                        std::string w;
                        while( ss >> w ) s->members.push_back( simpleType( w ) );
                    }
                    for( auto& k : u->kids ) if( k.name == "xs:simpleType" ) s->members.push_back( buildSimple( k, name + "/member" ) );
                }
                else if( const Node* r = x.child( "xs:restriction" ) )
                {
                    const SType* b = simpleType( *r->attr( "base" ) );
                    *s = *b;
                    s->name = name;
                    bool hasEnum = false;
                    for( auto& k : r->kids )
                    {
                        const std::string* v = k.attr( "value" );
                        if( !v ) continue;
                        if( k.name == "xs:enumeration" )
                        {
                            if( !hasEnum ) s->enums.clear();
                            hasEnum = true;
                            s->enums.push_back( *v );
                        }
                        else if( k.name == "xs:minInclusive" ) { s->hasMin = true; s->minEx = false; s->min = atof( v->c_str() ); }
                        else if( k.name == "xs:minExclusive" ) { s->hasMin = true; s->minEx = true; s->min = atof( v->c_str() ); }
                        else if( k.name == "xs:maxInclusive" ) { s->hasMax = true; s->max = atof( v->c_str() ); }
                        else if( k.name == "xs:pattern" ) s->pattern = *v;
                    }
                }
                const SType* r = s.get();
                g.stypes.push_back( std::move( s ) );
                return r;
            }
            void addAttrs( const Node& x, CType& c )
            {
                for( auto& k : x.kids )
                {
                    if( k.name == "xs:attribute" )
                    {
                        Attr a;
                        if( auto ref = k.attr( "ref" ) )
                        {
                            a.name = *ref;
                            if( *ref == "xml:lang" ) a.type = builtin( "language" );
                            else if( *ref == "xml:space" ) a.type = simpleType( "mxv-space" );
                            else if( *ref == "xlink:type" ) a.type = simpleType( "mxv-xlink-type" );
                            else if( *ref == "xlink:show" ) a.type = simpleType( "mxv-xlink-show" );
                            else if( *ref == "xlink:actuate" ) a.type = simpleType( "mxv-xlink-actuate" );
                            else a.type = builtin( *ref == "xlink:href" ? "anyURI" : "token" );
                        }
                        else
                        {
                            a.name = *k.attr( "name" );
                            if( auto t = k.attr( "type" ) ) a.type = simpleType( *t );
                            else if( auto st = k.child( "xs:simpleType" ) ) a.type = buildSimple( *st, c.name + "/@" + a.name );
                        }
                        if( auto u = k.attr( "use" ) ) a.required = *u == "required";
                        if( auto f = k.attr( "fixed" ) ) a.fixed = *f;
                        if( auto f = k.attr( "default" ) ) a.dflt = *f;
                        if( !a.type ) { std::cerr << "attribute without type " << a.name << "\n"; _exit( 74 ); }
                        c.attrs.push_back( a );
                    }
                    else if( k.name == "xs:attributeGroup" ) addAttrs( *attrGroups.at( *k.attr( "ref" ) ), c );
                }
            }
            static void occurs( const Node& k, Part& p )
            {
                if( auto m = k.attr( "minOccurs" ) ) p.min = atoi( m->c_str() );
                if( auto m = k.attr( "maxOccurs" ) ) p.max = *m == "unbounded" ? -1 : atoi( m->c_str() );
            }
            bool particle( const Node& k, Part& p, const std::string& path )
            {
                p.path = path;
                if( k.name == "xs:sequence" || k.name == "xs:choice" )
                {
                    p.kind = k.name == "xs:choice" ? Part::Choice : Part::Seq;
                    occurs( k, p );
                    int i = 0;
                    for( auto& c : k.kids )
                    {
                        Part q;
                        if( particle( c, q, path + "." + std::to_string( i++ ) ) ) p.kids.push_back( q );
                    }
                    return true;
                }
                if( k.name == "xs:group" )
                {
                    const Node& def = *groups.at( *k.attr( "ref" ) );
                    for( auto& c : def.kids )
                    {
                        Part q;
                        if( particle( c, q, path + "/" + *k.attr( "ref" ) ) )
                        {
                            p.kind = Part::Seq;
                            occurs( k, p );
                            p.kids.push_back( q );
                            return true;
                        }
                    }
                    return false;
                }
                if( k.name == "xs:element" )
                {
                    p.kind = Part::Elem;
                    occurs( k, p );
                    if( auto ref = k.attr( "ref" ) )
                    {
                        p.name = *ref;
                        p.type = elementType( *elements.at( *ref ), *ref );
                    }
                    else
                    {
                        p.name = *k.attr( "name" );
                        p.type = elementType( k, p.name );
                    }
                    return true;
                }
                return false;
            }
            std::map<const Node*, CType*> anon;
            const CType* elementType( const Node& k, const std::string& ename )
            {
                if( auto t = k.attr( "type" ) )
                {
                    if( complex.count( *t ) ) return complexType( *t );
                    auto it = complexBusy.find( "simple:" + *t );
                    if( it != complexBusy.end() ) return it->second;
                    auto c = std::make_unique<CType>();
                    c->name = "simple:" + *t;
                    c->simple = simpleType( *t );
                    if( !c->simple ) { std::cerr << "no type " << *t << "\n"; _exit( 74 ); }
                    CType* r = c.get();
                    g.ctypes.push_back( std::move( c ) );
                    complexBusy["simple:" + *t] = r;
                    return r;
                }
                if( auto ct = k.child( "xs:complexType" ) )
                {
                    auto it = anon.find( ct );
                    if( it != anon.end() ) return it->second;
                    auto c = std::make_unique<CType>();
                    CType* r = c.get();
                    r->name = "anon:" + ename;
                    g.ctypes.push_back( std::move( c ) );
                    anon[ct] = r;
                    fill( *ct, *r );
                    return r;
                }
                if( auto st = k.child( "xs:simpleType" ) )
                {
                    auto c = std::make_unique<CType>();
                    c->name = "anon-simple:" + ename;
                    c->simple = buildSimple( *st, c->name );
                    CType* r = c.get();
                    g.ctypes.push_back( std::move( c ) );
                    return r;
                }
                std::cerr << "element without type " << ename << "\n";
                _exit( 74 );
            }
            const CType* complexType( const std::string& n )
            {
                auto it = complexBusy.find( n );
                if( it != complexBusy.end() ) return it->second;
                auto c = std::make_unique<CType>();
                CType* r = c.get();
                r->name = n;
                g.ctypes.push_back( std::move( c ) );
                complexBusy[n] = r;
                fill( *complex.at( n ), *r );
                return r;
            }
            void fill( const Node& x, CType& c )
            {
                if( const Node* sc = x.child( "xs:simpleContent" ) )
                {
                    const Node* e = sc->child( "xs:extension" );
                    const std::string base = *e->attr( "base" );
                    if( complex.count( base ) )
                    {
                        const CType* b = complexType( base );
                        c.simple = b->simple;
                        c.attrs = b->attrs;
                    }
                    else c.simple = simpleType( base );
                    addAttrs( *e, c );
                    return;
                }
                if( const Node* cc = x.child( "xs:complexContent" ) )
                {
                    const Node* e = cc->child( "xs:extension" );
                    const CType* b = complexType( *e->attr( "base" ) );
                    c.attrs = b->attrs;
                    c.hasContent = b->hasContent;
                    c.content = b->content;
                    c.simple = b->simple;
                    for( auto& k : e->kids )
                    {
                        Part p;
                        if( particle( k, p, c.name ) )
                        {
                            if( c.hasContent )
                            {
                                Part s;
                                s.kids.push_back( c.content );
                                s.kids.push_back( p );
                                c.content = s;
                            }
                            else c.content = p;
                            c.hasContent = true;
                        }
                    }
                    addAttrs( *e, c );
                    return;
                }
                for( auto& k : x.kids )
                {
                    Part p;
                    if( particle( k, p, c.name ) )
                    {
                        c.content = p;
                        c.hasContent = true;
                        break;
                    }
                }
                addAttrs( x, c );
            }
            int depthOf( const Part& p )
            {
                // smallest height contributed, or -2 unknown yet
                if( p.min == 0 ) return 0;
                if( p.kind == Part::Elem ) return p.type->minDepth < 0 ? -2 : p.type->minDepth + 1;
                if( p.kind == Part::Seq )
                {
                    int m = 0;
                    for( auto& k : p.kids )
                    {
                        int d = depthOf( k );
                        if( d == -2 ) return -2;
                        m = std::max( m, d );
                    }
                    return m;
                }
                int best = -2;
                for( auto& k : p.kids )
                {
                    int d = depthOf( k );
                    if( d != -2 && ( best == -2 || d < best ) ) best = d;
                }
                return best;
            }
        };
        const char* kExtra = "<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema'>"
                             "<xs:simpleType name='mxv-space'><xs:restriction base='xs:token'><xs:enumeration value='default'/><xs:enumeration value='preserve'/></xs:restriction></xs:simpleType>"
                             "<xs:simpleType name='mxv-xlink-type'><xs:restriction base='xs:token'><xs:enumeration value='simple'/></xs:restriction></xs:simpleType>"
                             "<xs:simpleType name='mxv-xlink-show'><xs:restriction base='xs:token'><xs:enumeration value='new'/><xs:enumeration value='replace'/><xs:enumeration value='embed'/><xs:enumeration value='other'/><xs:enumeration value='none'/></xs:restriction></xs:simpleType>"
                             "<xs:simpleType name='mxv-xlink-actuate'><xs:restriction base='xs:token'><xs:enumeration value='onRequest'/><xs:enumeration value='onLoad'/><xs:enumeration value='other'/><xs:enumeration value='none'/></xs:restriction></xs:simpleType>"
                             "</xs:schema>";
    }

    const Grammar& grammar()
    {
        static const Grammar* g = [] {
            static ParseResult doc = parse( pbt::readFile( xsdPath() ) );
            static ParseResult extra = parse( kExtra );
            if( !doc.ok || !extra.ok ) { std::cerr << "cannot parse the schema\n"; _exit( 74 ); }
            static Builder b;
            for( const Node* r : { &doc.root, &extra.root } )
            {
                for( auto& k : r->kids )
                {
                    const std::string* n = k.attr( "name" );
                    if( !n ) continue;
                    if( k.name == "xs:simpleType" ) b.simple[*n] = &k;
                    else if( k.name == "xs:complexType" ) b.complex[*n] = &k;
                    else if( k.name == "xs:group" ) b.groups[*n] = &k;
                    else if( k.name == "xs:attributeGroup" ) b.attrGroups[*n] = &k;
                    else if( k.name == "xs:element" ) b.elements[*n] = &k;
                }
            }
            for( auto& s : b.simple ) b.simpleType( s.first );
            b.g.partwise = b.elementType( *b.elements.at( "score-partwise" ), "score-partwise" );
            b.g.timewise = b.elementType( *b.elements.at( "score-timewise" ), "score-timewise" );
            bool changed = true;
            while( changed )
            {
                changed = false;
                for( auto& c : b.g.ctypes )
                {
                    if( c->minDepth >= 0 ) continue;
                    int d = c->hasContent ? b.depthOf( c->content ) : 0;
                    if( d != -2 ) { c->minDepth = d; changed = true; }
                }
            }
            std::set<std::pair<std::string, const CType*>> seen;
            std::function<void( const Part& )> walk = [&]( const Part& p ) {
                if( p.kind == Part::Elem )
                {
                    if( seen.insert( { p.name, p.type } ).second )
                    {
                        b.g.elements.emplace_back( p.name, p.type );
                        if( p.type->hasContent ) walk( p.type->content );
                    }
                }
                for( auto& k : p.kids ) walk( k );
            };
            walk( b.g.partwise->content );
            walk( b.g.timewise->content );
            return &b.g;
        }();
        return *g;
    }

    const CType* typeOfRoot( const std::string& name )
    {
        if( name == "score-partwise" ) return grammar().partwise;
        if( name == "score-timewise" ) return grammar().timewise;
        return nullptr;
    }
    static void collectChildren( const Part& p, std::unordered_map<std::string, const CType*>& m )
    {
        if( p.kind == Part::Elem ) m.emplace( p.name, p.type );
        for( auto& k : p.kids ) collectChildren( k, m );
    }
    const CType* childType( const CType* c, const std::string& name )
    {
        static std::unordered_map<const CType*, std::unordered_map<std::string, const CType*>> cache;
        if( !c || !c->hasContent ) return nullptr;
        auto it = cache.find( c );
        if( it == cache.end() )
        {
            it = cache.emplace( c, std::unordered_map<std::string, const CType*>{} ).first;
            collectChildren( c->content, it->second );
        }
        auto f = it->second.find( name );
        return f == it->second.end() ? nullptr : f->second;
    }

    // ---- values ------------------------------------------------------------------------------
    static std::string utf8( uint32_t cp )
    {
        std::string o;
        if( cp < 0x80 ) o += (char)cp;
        else if( cp < 0x800 ) { o += (char)( 0xc0 | ( cp >> 6 ) ); o += (char)( 0x80 | ( cp & 63 ) ); }
        else if( cp < 0x10000 ) { o += (char)( 0xe0 | ( cp >> 12 ) ); o += (char)( 0x80 | ( ( cp >> 6 ) & 63 ) ); o += (char)( 0x80 | ( cp & 63 ) ); }
        else
        {
            o += (char)( 0xf0 | ( cp >> 18 ) );
            o += (char)( 0x80 | ( ( cp >> 12 ) & 63 ) );
            o += (char)( 0x80 | ( ( cp >> 6 ) & 63 ) );
            o += (char)( 0x80 | ( cp & 63 ) );
        }
        return o;
    }
    std::string genText( Tape& t, bool simple )
    {
        static const std::vector<std::string> words{ "a", "Violin", "dolce", "I", "x1", "Op. 3", "poco a poco", "cresc.", "la", "42", "B-3", "(solo)", "r\xc3\xa9", "\xe4\xb8\xad" };
        if( simple ) return t.pick( words );
        switch( t.below( 5 ) )
        {
            case 0: return t.pick( words );
            case 1:
            {
                static const std::vector<std::string> meta{ "&", "<", ">", "\"", "'", "&amp;", "&lt;", "]]>", "<a/>", "&#65;", "\"/><x y=\"", "-->", "<!--", "<![CDATA[", "%", "\\", "a & b", "x<y", "=\"", "&quot;" };
                std::string o;
                do o += t.pick( meta ); while( o.size() < 60 && t.more( 1.5 ) );
                return o;
            }
            case 2:
            {
                std::string o;
                do
                {
                    uint32_t cp = 0;
                    switch( t.below( 6 ) )
                    {
                        case 0: cp = 0x21 + t.below( 0x5e ); break;
                        case 1: cp = 0xa1 + t.below( 0x2ff ); break;
                        case 2: cp = 0x400 + t.below( 0x3000 ); break;
                        case 3: cp = 0x4e00 + t.below( 0x5000 ); break;
                        case 4: cp = 0x1d100 + t.below( 0x100 ); break;
                        default: cp = t.pick<uint32_t>( { 0xfffdu, 0x1f3b5u, 0x10ffffu, 0xe000u, 0x266fu, 0x266du, 0xd7ffu, 0x85u, 0x2028u } ); break;
                    }
                    o += utf8( cp );
                } while( o.size() < 80 && t.more( 3 ) );
                return o;
            }
            case 3:
            {
                // inner white space
                std::string o = t.pick( words );
                do
                {
                    o += t.pick<const char*>( { " ", "  ", "   " } );
                    o += t.pick( words );
                } while( t.more( 1 ) );
                return o;
            }
            default:
            {
                std::string o;
                do o += (char)( 0x20 + t.below( 0x5f ) ); while( o.size() < 60 && t.more( 6 ) );
                return o;
            }
        }
    }

    static std::string genDecimal( Tape& t, const SType* s )
    {
        double lo = s->hasMin ? s->min : -99999, hi = s->hasMax ? s->max : 99999;
        const bool ints = t.chance( 1, 3 );
        if( s->integral() || ints )
        {
            int l = (int)std::ceil( lo ), h = (int)std::floor( hi );
            if( s->minEx && l == lo ) ++l;
            if( t.chance( 1, 10 ) ) return std::to_string( t.coin() ? h : l );
            int span = t.pick( { 8, 100, 1000000 } );
            int z = std::max( l, std::min( h, 1 ) );
            return std::to_string( t.around( std::max( l, z - span ), std::min( h, z + span ), z ) );
        }
        // decimals in canonical or non canonical spelling, up to six places
        int places = t.range( 1, 6 );
        long long scale = 1;
        for( int i = 0; i < places; ++i ) scale *= 10;
        long long l = (long long)std::ceil( lo ), h = (long long)std::floor( hi );
        long long ip = t.around( (int)std::max<long long>( l, -1000 ), (int)std::min<long long>( h, 1000 ), (int)std::max<long long>( l, 0 ) );
        long long fp = t.below( (uint32_t)scale );
        if( t.chance( 1, 5 ) ) fp = t.pick<long long>( { 1, scale - 1, scale / 10, 5 } ) % scale;
        // value = ip + fp/scale (towards +inf), keep in range
        if( (double)ip + (double)fp / scale > hi ) fp = 0;
        if( s->minEx && ip == l && fp == 0 && lo == ip ) fp = 1;
        bool neg = ip < 0;
        unsigned long long ai = neg ? -ip : ip, af = fp;
        if( neg && fp != 0 ) { ai = -ip - 1; af = scale - fp; }
        std::string f = std::to_string( af );
        f = std::string( places - f.size(), '0' ) + f;
        std::string i = std::to_string( ai );
        switch( t.below( 12 ) )
        {
            case 11: if( ai == 0 ) i.clear(); break;      // .5
            case 10: i = "0" + i; break;                  // 01.5
            case 9: if( !neg ) i = "+" + i; break;        // +1.5
            case 8: f += "00"; break;                     // 1.500
            default: break;
        }
        return ( neg ? "-" : "" ) + i + "." + f;
    }

    std::string genValue( Tape& t, const SType* s, bool simpleText )
    {
        if( !s->members.empty() )
        {
            return genValue( t, s->members[t.below( (uint32_t)s->members.size() )], simpleText );
        }
        if( !s->enums.empty() ) return t.pick( s->enums );
        if( s->base == "decimal" || s->integral() ) return genDecimal( t, s );
        if( s->name == "color" )
        {
            std::string o = "#";
            int n = t.coin() ? 6 : 8;
            for( int i = 0; i < n; ++i ) o += "0123456789ABCDEF"[t.below( 16 )];
            return o;
        }
        if( !s->pattern.empty() && s->name != "color" )
        {
            if( s->name == "comma-separated-text" )
            {
                std::string o = t.pick<const char*>( { "Arial", "Times New Roman", "Opus", "serif" } );
                const char* sep = t.coin() ? "," : ", ";
                while( t.more( 0.7 ) ) o += sep + std::string( t.pick<const char*>( { "Arial", "Helvetica", "sans-serif", "Maestro" } ) );
                return o;
            }
            if( s->name == "time-only" || s->name == "ending-number" )
            {
                if( s->name == "ending-number" && t.chance( 1, 8 ) ) return t.coin() ? "" : " ";
                int v = t.range( 1, 3 );
                std::string o = std::to_string( v );
                const char* sep = t.coin() ? "," : ", ";
                while( t.more( 0.7 ) ) o += sep + std::to_string( v += t.range( 1, 4 ) );
                return o;
            }
            if( s->name == "yyyy-mm-dd" )
            {
                char b[32];
                int y = t.pick( { 2000, 1999, 2024, 1900, 1600, 1970, 2016 } ), m = t.range( 1, 12 );
                int dim = m == 2 ? 28 : ( m == 4 || m == 6 || m == 9 || m == 11 ) ? 30 : 31;
                snprintf( b, sizeof b, "%04d-%02d-%02d", y, m, t.range( 1, dim ) );
                return b;
            }
            std::cerr << "no generator for pattern type " << s->name << "\n";
            _exit( 74 );
        }
        const std::string& b = s->base;
        if( b == "NMTOKEN" ) return t.pick<const char*>( { "a", "n1", "x-y", "_z", "a.b", "9" } );
        if( b == "ID" || b == "IDREF" ) return "P1"; // fixed up by the document generator
        if( b == "language" ) return t.pick<const char*>( { "en", "de", "en-US", "fr" } );
        if( b == "anyURI" ) return t.pick<const char*>( { "http://x.org/a", "a.xml", "img/p.png" } );
        if( b == "date" ) return "2010-01-01";
        std::string v = genText( t, simpleText );
        if( s->name == "xs:string" && t.chance( 1, 20 ) ) return t.coin() ? "" : v + t.pick<const char*>( { "\r", "\n", "\r\n", "\t" } ) + "x";
        if( s->name == "xs:token" && t.chance( 1, 20 ) ) return "";
        return v;
    }

    // ---- documents ---------------------------------------------------------------------------
    namespace
    {
        struct Gen
        {
            Tape& t;
            const GenOptions& o;
            int nodes = 0;
            int ids = 0;
            std::vector<std::pair<Node*, std::string>> dummy;
            bool usesXlink = false;
            // distance from a type to the target (number of element steps)
            std::unordered_map<const CType*, int>* dist = nullptr;

            Gen( Tape& tt, const GenOptions& oo ) : t( tt ), o( oo )
            {
                if( o.target ) computeDist();
            }
            void computeDist()
            {
                static std::map<std::string, std::unordered_map<const CType*, int>> cache;
                const std::string key = o.targetName + "|" + o.target->name;
                const bool have = cache.count( key ) > 0;
                dist = &cache[key];
                if( have ) return;
                const Grammar& g = grammar();
                for( auto& c : g.ctypes ) ( *dist )[c.get()] = 1 << 20;
                bool ch = true;
                while( ch )
                {
                    ch = false;
                    for( auto& c : g.ctypes )
                    {
                        if( !c->hasContent ) continue;
                        int d = partDist( c->content );
                        if( d < ( *dist )[c.get()] ) { ( *dist )[c.get()] = d; ch = true; }
                    }
                }
            }
            int partDist( const Part& p )
            {
                if( p.kind == Part::Elem )
                {
                    if( p.name == o.targetName && p.type == o.target ) return 1;
                    auto it = dist->find( p.type );
                    return it == dist->end() ? 1 << 20 : std::min( 1 << 20, it->second + 1 );
                }
                int m = 1 << 20;
                for( auto& k : p.kids ) m = std::min( m, partDist( k ) );
                return m;
            }
            bool chance( double p ) { return t.chance( (uint32_t)( p * 1000 ), 1000 ); }

            void element( Node& n, const std::string& name, const CType* c, bool onPath, double density, int depth )
            {
                ++nodes;
                n.name = name;
                const bool isTarget = onPath && o.target == c && o.targetName == name;
                if( isTarget ) { density = o.targetDensity; onPath = false; hitTarget = true; }
                if( nodes > o.maxNodes ) density = 0;
                for( auto& a : c->attrs )
                {
                    if( a.name.compare( 0, 6, "xlink:" ) == 0 ) usesXlink = true;
                    if( !a.required && !chance( density ) ) continue;
                    std::string v = a.fixed.empty() ? genValue( t, a.type, o.simpleText ) : a.fixed;
                    if( a.type->base == "ID" ) v = "P" + std::to_string( ++ids );
                    n.attrs.emplace_back( a.name, v );
                }
                if( c->simple )
                {
                    n.text = genValue( t, c->simple, o.simpleText );
                    return;
                }
                if( c->hasContent ) part( n, c->content, onPath, density, depth, partDist0( c->content, onPath ) );
            }
            bool hitTarget = false;
            int partDist0( const Part& p, bool onPath ) { return onPath ? partDist( p ) : 0; }

            // generate one particle with its occurrence count
            void part( Node& n, const Part& p, bool onPath, double density, int depth, int )
            {
                const bool path = onPath && partDist( p ) < ( 1 << 20 ) && !hitTarget;
                int cnt = p.min;
                if( path && cnt < 1 ) cnt = 1;
                int max = p.max < 0 ? std::max( p.min, o.maxRepeat ) : std::min( p.max, std::max( p.min, 8 ) );
                if( depth > 12 || nodes > o.maxNodes ) max = cnt;
                while( cnt < max && chance( p.max < 0 ? std::min( 0.6, density ) : density ) ) ++cnt;
                // choose which repetition carries the path
                int carrier = path && cnt > 1 ? (int)t.below( (uint32_t)cnt ) : 0;
                for( int i = 0; i < cnt; ++i ) once( n, p, path && i == carrier, density, depth );
            }
            void once( Node& n, const Part& p, bool onPath, double density, int depth )
            {
                if( p.kind == Part::Elem )
                {
                    // children are appended through an index because the vector may grow
                    n.kids.emplace_back();
                    Node k;
                    element( k, p.name, p.type, onPath, density, depth + 1 );
                    n.kids.back() = std::move( k );
                    return;
                }
                if( p.kind == Part::Seq )
                {
                    // exactly one sibling carries the path: pick among those that can reach the target
                    int carrier = -1;
                    if( onPath )
                    {
                        std::vector<int> can;
                        int best = 1 << 20;
                        for( size_t i = 0; i < p.kids.size(); ++i ) best = std::min( best, partDist( p.kids[i] ) );
                        for( size_t i = 0; i < p.kids.size(); ++i )
                        {
                            int d = partDist( p.kids[i] );
                            if( d < ( 1 << 20 ) && d <= best + 2 ) can.push_back( (int)i );
                        }
                        if( !can.empty() ) carrier = t.pick( can );
                    }
                    for( size_t i = 0; i < p.kids.size(); ++i ) part( n, p.kids[i], (int)i == carrier, density, depth, 0 );
                    return;
                }
                // choice
                std::vector<int> can;
                if( onPath )
                {
                    int best = 1 << 20;
                    for( auto& k : p.kids ) best = std::min( best, partDist( k ) );
                    for( size_t i = 0; i < p.kids.size(); ++i )
                    {
                        int d = partDist( p.kids[i] );
                        if( d < ( 1 << 20 ) && d <= best + 2 ) can.push_back( (int)i );
                    }
                }
                else if( depth > 12 || nodes > o.maxNodes )
                {
                    int best = 1 << 20;
                    for( auto& k : p.kids ) best = std::min( best, height( k ) );
                    for( size_t i = 0; i < p.kids.size(); ++i ) if( height( p.kids[i] ) == best ) can.push_back( (int)i );
                }
                if( can.empty() ) for( size_t i = 0; i < p.kids.size(); ++i ) can.push_back( (int)i );
                const int c = t.pick( can );
                part( n, p.kids[c], onPath, density, depth, 0 );
            }
            static int height( const Part& p )
            {
                if( p.min == 0 ) return 0;
                if( p.kind == Part::Elem ) return p.type->minDepth + 1;
                int m = p.kind == Part::Choice ? 1 << 20 : 0;
                for( auto& k : p.kids ) m = p.kind == Part::Choice ? std::min( m, height( k ) ) : std::max( m, height( k ) );
                return m;
            }
        };

        void collect( Node& n, const CType* c, std::vector<std::string>& ids, std::vector<std::pair<Node*, size_t>>& refs, bool& xlink )
        {
            for( size_t i = 0; i < n.attrs.size(); ++i )
            {
                const Attr* a = c ? c->attr( n.attrs[i].first ) : nullptr;
                if( !a ) continue;
                if( a->type->base == "ID" ) ids.push_back( n.attrs[i].second );
                if( a->type->base == "IDREF" ) refs.emplace_back( &n, i );
                if( a->name.compare( 0, 6, "xlink:" ) == 0 ) xlink = true;
            }
            for( auto& k : n.kids ) collect( k, childType( c, k.name ), ids, refs, xlink );
        }
    }

    Node genDocument( Tape& t, const GenOptions& o )
    {
        const Grammar& g = grammar();
        const bool timewise = o.targetName == "score-timewise" || ( o.targetName != "score-partwise" && t.chance( 1, 4 ) );
        Gen gen( t, o );
        Node root;
        gen.element( root, timewise ? "score-timewise" : "score-partwise", timewise ? g.timewise : g.partwise, o.target != nullptr, o.density, 0 );
        // IDREFs must name existing ids: part ids name score-parts in order
        std::vector<std::string> ids;
        std::vector<std::pair<Node*, size_t>> refs;
        bool xlink = false;
        collect( root, timewise ? g.timewise : g.partwise, ids, refs, xlink );
        size_t k = 0;
        for( auto& r : refs )
        {
            if( ids.empty() ) break;
            r.first->attrs[r.second].second = ids[( k++ ) % ids.size()];
        }
        if( xlink ) root.attrs.emplace_back( "xmlns:xlink", "http://www.w3.org/1999/xlink" );
        return root;
    }

    // ---- comparison --------------------------------------------------------------------------
    static std::string collapse( const std::string& v )
    {
        std::string o;
        bool sp = false;
        for( char c : v )
        {
            if( c == ' ' || c == '\t' || c == '\n' || c == '\r' ) { sp = true; continue; }
            if( sp && !o.empty() ) o += ' ';
            sp = false;
            o += c;
        }
        return o;
    }
    std::string canonDecimal( const std::string& in, bool& ok )
    {
        std::string v = collapse( in );
        ok = false;
        size_t i = 0;
        bool neg = false;
        if( i < v.size() && ( v[i] == '+' || v[i] == '-' ) ) { neg = v[i] == '-'; ++i; }
        std::string ip, fp;
        while( i < v.size() && isdigit( (unsigned char)v[i] ) ) ip += v[i++];
        if( i < v.size() && v[i] == '.' )
        {
            ++i;
            while( i < v.size() && isdigit( (unsigned char)v[i] ) ) fp += v[i++];
        }
        if( i != v.size() || ( ip.empty() && fp.empty() ) ) return v;
        ok = true;
        size_t z = ip.find_first_not_of( '0' );
        ip = z == std::string::npos ? "0" : ip.substr( z );
        while( !fp.empty() && fp.back() == '0' ) fp.pop_back();
        std::string r = ip + ( fp.empty() ? "" : "." + fp );
        if( neg && r != "0" ) r = "-" + r;
        return r;
    }
    std::string canon( const std::string& v, const SType* s )
    {
        if( !s ) return v;
        bool ok = false;
        if( !s->members.empty() )
        {
            std::string d = canonDecimal( v, ok );
            if( ok )
            {
                for( auto m : s->members ) if( m->numeric() ) return d;
            }
            return s->members.back()->base == "string" ? v : collapse( v );
        }
        if( s->numeric() ) return canonDecimal( v, ok );
        if( s->name == "time-only" || s->name == "ending-number" || s->name == "comma-separated-text" )
        {
            std::string o;
            for( char c : collapse( v ) )
            {
                if( c == ' ' && !o.empty() && o.back() == ',' ) continue;
                o += c;
            }
            return o;
        }
        if( s->base == "string" ) return v;
        return collapse( v );
    }

    static void cmp( const Node& e, const Node& a, const CType* c, const std::string& path, std::vector<Diff>& out, size_t maxDiffs )
    {
        if( out.size() >= maxDiffs ) return;
        if( e.name != a.name )
        {
            out.push_back( { "element:" + e.name + "->" + a.name, path + ": expected <" + e.name + ">, got <" + a.name + ">" } );
            return;
        }
        const std::string here = path + "/" + e.name;
        for( auto& x : e.attrs )
        {
            if( x.first.compare( 0, 5, "xmlns" ) == 0 ) continue;
            const std::string* v = a.attr( x.first );
            const Attr* at = c ? c->attr( x.first ) : nullptr;
            if( !v ) out.push_back( { "attr-lost:" + e.name + "/@" + x.first, here + "/@" + x.first + "=\"" + x.second + "\" was lost" } );
            else if( canon( *v, at ? at->type : nullptr ) != canon( x.second, at ? at->type : nullptr ) )
                out.push_back( { "attr-changed:" + e.name + "/@" + x.first, here + "/@" + x.first + ": \"" + x.second + "\" became \"" + *v + "\"" } );
        }
        for( auto& x : a.attrs )
        {
            if( x.first.compare( 0, 5, "xmlns" ) == 0 ) continue;
            if( !e.attr( x.first ) ) out.push_back( { "attr-added:" + e.name + "/@" + x.first, here + "/@" + x.first + "=\"" + x.second + "\" was added" } );
        }
        if( e.kids.empty() && a.kids.empty() )
        {
            const SType* s = c ? c->simple : nullptr;
            if( canon( e.text, s ) != canon( a.text, s ) && !( !s && collapse( e.text ).empty() && collapse( a.text ).empty() ) )
                out.push_back( { "text-changed:" + e.name, here + ": text \"" + e.text + "\" became \"" + a.text + "\"" } );
            return;
        }
        size_t n = std::min( e.kids.size(), a.kids.size() );
        size_t i = 0;
        for( ; i < n; ++i ) if( e.kids[i].name != a.kids[i].name ) break;
        if( i < e.kids.size() || i < a.kids.size() )
        {
            // sequence differs: name what was lost or added
            std::map<std::string, int> bal;
            for( auto& k : e.kids ) ++bal[k.name];
            for( auto& k : a.kids ) --bal[k.name];
            std::string what;
            for( auto& b : bal ) if( b.second ) what += ( b.second > 0 ? " -" : " +" ) + b.first;
            std::string fp = "children:" + e.name + ( what.empty() ? " reordered" : what );
            for( char& ch : fp ) if( ch == ' ' ) ch = ',';
            std::string exp, act;
            for( auto& k : e.kids ) exp += k.name + " ";
            for( auto& k : a.kids ) act += k.name + " ";
            out.push_back( { fp, here + ": children [" + exp + "] became [" + act + "]" } );
        }
        for( size_t k = 0; k < i; ++k ) cmp( e.kids[k], a.kids[k], childType( c, e.kids[k].name ), here, out, maxDiffs );
    }
    void compare( const Node& expected, const Node& actual, std::vector<Diff>& out, size_t maxDiffs )
    {
        cmp( expected, actual, typeOfRoot( expected.name ), "", out, maxDiffs );
    }
}
