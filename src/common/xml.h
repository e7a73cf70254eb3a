// Independent XML side of the oracles: a plain node tree, libxml2 based parsing and schema
// validation, and a generator of documents driven by the MusicXML 3.0 schema.
#pragma once
#include "common/pbt.h"
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace xml
{
    struct Node
    {
        std::string name;
        std::vector<std::pair<std::string, std::string>> attrs;
        std::string text; // concatenated character data (only meaningful without element children)
        std::vector<Node> kids;

        const std::string* attr( const std::string& n ) const
        {
            for( auto& a : attrs ) if( a.first == n ) return &a.second;
            return nullptr;
        }
        const Node* child( const std::string& n ) const
        {
            for( auto& k : kids ) if( k.name == n ) return &k;
            return nullptr;
        }
        void setAttr( const std::string& n, const std::string& v )
        {
            for( auto& a : attrs ) if( a.first == n ) { a.second = v; return; }
            attrs.emplace_back( n, v );
        }
        size_t count() const
        {
            size_t c = 1;
            for( auto& k : kids ) c += k.count();
            return c;
        }
    };

    std::string escapeText( const std::string& s );
    std::string escapeAttr( const std::string& s );
    // pretty: one element per line (for messages and replay files)
    std::string serialize( const Node& n, bool header = true );
    // random surface syntax: quoting, CDATA, character references, comments, white space, attribute order
    std::string serializeNoisy( const Node& n, pbt::Tape& t );

    struct ParseResult
    {
        bool ok = false;
        std::string error;
        Node root;
        std::string doctypeName, doctypePublic, doctypeSystem, encoding;
        std::vector<std::string> undeclaredPrefixes;
    };
    // libxml2; undeclared namespace prefixes are reported but are no parse error
    ParseResult parse( const std::string& text );

    // schema validation by libxml2; empty string = valid, else messages
    std::string validate( const std::string& text );

    // ---- schema grammar ----------------------------------------------------------------------
    struct SType
    {
        std::string name;
        std::string base;                 // xs:... builtin after resolution
        std::vector<std::string> enums;
        std::vector<const SType*> members; // union
        bool hasMin = false, hasMax = false, minEx = false;
        double min = 0, max = 0;
        std::string pattern;
        bool numeric() const;
        bool integral() const;
    };
    struct Attr
    {
        std::string name;
        const SType* type = nullptr;
        bool required = false;
        std::string fixed, dflt;
    };
    struct CType;
    struct Part
    {
        enum Kind { Elem, Seq, Choice } kind = Seq;
        int min = 1, max = 1; // max -1: unbounded
        std::string name;
        const CType* type = nullptr;
        std::vector<Part> kids;
        std::string path; // stable id for coverage
    };
    struct CType
    {
        std::string name;
        std::vector<Attr> attrs;
        const SType* simple = nullptr;
        bool hasContent = false;
        Part content;
        int minDepth = -1; // smallest height of a valid element of this type
        const Attr* attr( const std::string& n ) const
        {
            for( auto& a : attrs ) if( a.name == n ) return &a;
            return nullptr;
        }
    };
    struct Grammar
    {
        std::vector<std::unique_ptr<SType>> stypes;
        std::vector<std::unique_ptr<CType>> ctypes;
        std::map<std::string, const SType*> simpleByName;
        const CType* partwise = nullptr;
        const CType* timewise = nullptr;
        // every (element name, type) pair reachable from either root
        std::vector<std::pair<std::string, const CType*>> elements;
    };
    const Grammar& grammar();

    struct GenOptions
    {
        const CType* target = nullptr;   // element type to reach and populate densely
        std::string targetName;
        double density = 0.3;            // chance of optional attributes/children outside the target
        double targetDensity = 0.7;
        int maxRepeat = 3;
        int maxNodes = 400;
        bool simpleText = true;          // plain text values; false: full Unicode and metacharacters
        bool links = true;               // may use xlink attributes
    };
    // a schema-valid document
    Node genDocument( pbt::Tape& t, const GenOptions& o );
    std::string genValue( pbt::Tape& t, const SType* s, bool simpleText = true );
    std::string genText( pbt::Tape& t, bool simple );

    // value canonicalisation by schema type (numbers, white space, lists)
    std::string canon( const std::string& v, const SType* s );
    std::string canonDecimal( const std::string& v, bool& ok );

    struct Diff
    {
        std::string fingerprint, message;
    };
    // compare two documents by schema type; expected drives the types
    void compare( const Node& expected, const Node& actual, std::vector<Diff>& out, size_t maxDiffs = 20 );
    const CType* typeOfRoot( const std::string& name );
    // child type lookup by element name (names are unique within a content model's element set in MusicXML)
    const CType* childType( const CType* c, const std::string& name );
    std::string xsdPath();
}
