// R01: reading arbitrary input succeeds or throws a standard exception
#include "common/docs.h"
#include "common/score.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include <fstream>
#include <sstream>
#include <streambuf>
#include <sys/stat.h>
#include <unistd.h>
using namespace mx::api;

namespace
{
    DocumentManager& dm() { return DocumentManager::getInstance(); }
    std::string write( int id )
    {
        std::ostringstream os;
        dm().writeToStream( id, os );
        return os.str();
    }
    // one document that is held while others are read
    struct Witness
    {
        int id;
        std::string text;
        Witness()
        {
            std::istringstream is( "<score-partwise version=\"3.0\"><part-list><score-part id=\"P1\"><part-name>A &amp; B</part-name></score-part></part-list><part id=\"P1\"><measure number=\"1\"><note><rest/><duration>4</duration></note></measure></part></score-partwise>" );
            id = dm().createFromStream( is );
            text = write( id );
        }
        ~Witness() { dm().destroyDocument( id ); }
    };
    std::string scoreText( pbt::Tape& t )
    {
        score::Opts o;
        o.attachments = o.directions = o.measures = o.header = 30;
        o.maxMeasures = 2;
        const auto s = score::generate( t, o );
        return score::write( s );
    }
    std::string base( pbt::Tape& t, pbt::Ctx& c )
    {
        switch( t.weighted( { 3, 4, 2, 1 } ) )
        {
        case 0: return xml::serialize( docs::fromSchema( t, c, 120 ) );
        case 1: return docs::sample( t, c, 12000 );
        case 2: return scoreText( t );
        default: return t.pick<const char*>( { "", "<", "<a/>", "<score-partwise/>", "<score-timewise/>", "<?xml version=\"1.0\"?>", "<score-partwise><part-list/></score-partwise>", "\xEF\xBB\xBF<score-partwise/>", "PK\x03\x04", "<opus/>" } );
        }
    }
    const std::vector<std::string>& tokens()
    {
        static const std::vector<std::string> v{
            "<", ">", "/", "\"", "'", "=", "&", ";", "</", "/>", "<?", "?>", "<!--", "-->", "--", "<![CDATA[", "]]>", "<!DOCTYPE", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "[", "]", "&amp;", "&lt;", "&#0;", "&#1;", "&#x110000;", "&#55296;", "&#xD800;",
            "&#99999999999999999999;", "&#x;", "&#;", "&bogus;", "&amp", "\t", "\n", "\r\n", " ", std::string( 1, '\0' ), "\x01", "\x7f", "\x80", "\xC0\x80", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xFF\xFE", "\xEF\xBB\xBF", "\xE2\x82", "é", "𝄞",
            "xmlns:x=\"y\"", "xlink:href=\"z\"", "xml:lang=\"en\"", "<?xml version=\"1.0\" encoding=\"UTF-16\"?>", "<?xml version=\"1.0\" encoding=\"latin1\"?>", "<?xml version=\"1.1\"?>", "<?pi data?>", "<?pi?>",
            "0", "-1", "1", "99999999999999999999999999", "-99999999999999999999", "2147483648", "1e999", "1e-999", "NaN", "INF", "0x1", ".", "-", "+", ",", "1,2", ",,", "1, ,3", "#", "#GGGGGG", "#FF", "P1", "yes", "no", "::", ":" };
        return v;
    }
    std::string damaged( pbt::Tape& t, pbt::Ctx& c, std::string s )
    {
        const int edits = t.pick<int>( { 1, 0, 2, 3, 6, 15 } );
        for( int e = 0; e < edits; ++e )
        {
            const auto at = [&]( size_t n ) { return (size_t)t.below( (uint32_t)n + 1 ); };
            const size_t p = at( s.size() );
            const size_t len = std::min( s.size() - p, (size_t)t.pick<int>( { 1, 2, 4, 10, 40, 200 } ) );
            switch( t.below( 9 ) )
            {
            case 0: s.resize( p ); break; // cut short
            case 1: if( p < s.size() ) s[p] = (char)t.below( 256 ); break;
            case 2: if( p < s.size() ) s[p] ^= (char)( 1 << t.below( 8 ) ); break;
            case 3: s.insert( p, t.pick( tokens() ) ); break;
            case 4: s.erase( p, len ); break;
            case 5: s.insert( at( s.size() ), s.substr( p, len ) ); break; // repeat or move a span
            case 6: // between two tags or quotes
            {
                const char* open = t.coin() ? "\"" : ">";
                const auto b = s.find( open, p );
                if( b == std::string::npos ) break;
                const auto f = s.find_first_of( "\"<", b + 1 );
                if( f == std::string::npos ) break;
                s.replace( b + 1, f - b - 1, t.pick( tokens() ) );
                break;
            }
            case 7: // a name
            {
                const auto b = s.find( '<', p );
                if( b == std::string::npos ) break;
                size_t f = b + 1;
                if( f < s.size() && s[f] == '/' ) ++f;
                const size_t g = s.find_first_of( " />", f );
                if( g == std::string::npos ) break;
                s.replace( f, g - f, t.pick( xml::grammar().elements ).first );
                break;
            }
            default: // the head of one, the tail of another
            {
                const std::string o = base( t, c );
                s = s.substr( 0, p ) + o.substr( at( o.size() ) );
                break;
            }
            }
        }
        return s;
    }
    std::string encoded( pbt::Tape& t, const std::string& s )
    {
        std::string o;
        const auto kind = t.weighted( { 40, 1, 1, 1, 1, 1 } );
        switch( kind )
        {
        case 0: return s;
        case 1: return "\xEF\xBB\xBF" + s;
        case 2: case 3: // UTF-16 of the bytes
            o = kind == 2 ? "\xFF\xFE" : "\xFE\xFF";
            for( char ch : s ) { if( kind == 2 ) { o += ch; o += '\0'; } else { o += '\0'; o += ch; } }
            return o;
        case 4: // UTF-32
            o = std::string( "\xFF\xFE\0\0", 4 );
            for( char ch : s ) { o += ch; o.append( 3, '\0' ); }
            return o;
        default: return "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>" + s;
        }
    }
    std::string shown( const std::string& s )
    {
        std::string o;
        for( unsigned char ch : s ) if( ( ch >= 0x20 && ch < 0x7f ) || ch == '\n' ) o += (char)ch; else { char b[8]; snprintf( b, sizeof b, "\\x%02X", ch ); o += b; }
        return o;
    }
    // 0 stream, 1 file
    int open( const std::string& text, int way )
    {
        if( way == 0 )
        {
            std::istringstream is( text );
            return dm().createFromStream( is );
        }
        const std::string path = pbt::scratchDir() + ( way == 1 ? "/r01.xml" : "/r01.mxl" );
        {
            std::ofstream f( path, std::ios::binary );
            f.write( text.data(), (std::streamsize)text.size() );
        }
        return dm().createFromFile( path );
    }
    void judge( pbt::Tape& t, pbt::Ctx& c, const std::string& text )
    {
        Witness w;
        const int way = (int)t.weighted( { 4, 2, 1 } );
        int id = -1;
        std::string why;
        try { id = open( text, way ); }
        catch( const std::exception& e ) { why = e.what(); if( why.empty() ) c.fail( "no-message", "the exception has no message\n" ); }
        catch( ... ) { c.fail( "not-a-standard-exception", "reading threw something not derived from std::exception\n" ); return; }
        if( id < 0 ) c.tag( "refused" );
        else
        {
            c.tag( "accepted" );
            std::string out;
            try { out = write( id ); }
            catch( const std::exception& e ) { c.fail( "not-written", std::string( "an accepted document cannot be written: " ) + e.what() + "\n" ); }
            const auto in = xml::parse( text );
            const auto p = xml::parse( out );
            if( in.ok && !p.ok ) c.fail( "not-well-formed", "a well-formed document is written as one that is not: " + p.error + "\n" + out );
            if( !in.ok ) c.tag( "accepted though not well-formed" );
            else if( p.ok )
            {
                // the reader accepts its own output and has nothing to change any more
                try
                {
                    const int again = open( out, 0 );
                    const std::string second = write( again );
                    dm().destroyDocument( again );
                    if( second != out ) { c.input( shown( text ) + "\n<!-- written -->\n" + out + "\n<!-- written again -->\n" + second ); c.fail( "second-write", "an accepted document is written differently after it was written and read again\n" ); }
                }
                catch( const std::exception& e ) { c.input( shown( text ) + "\n<!-- written -->\n" + out ); c.fail( "own-output-refused", std::string( "what was written for an accepted document is refused: " ) + e.what() + "\n" ); }
            }
            dm().destroyDocument( id );
        }
        // the collection is usable and unchanged
        if( write( w.id ) != w.text ) c.fail( "other-document", "another document has changed\n" );
        Witness v;
        if( v.text != w.text ) c.fail( "later-document", "a document read afterwards is different\n" );
    }
    void bytes( pbt::Tape& t, pbt::Ctx& c )
    {
        const std::string text = encoded( t, damaged( t, c, base( t, c ) ) );
        c.input( shown( text ) );
        if( text.size() > 8 ) c.nontrivial( text );
        judge( t, c, text );
    }
    // well-formed, of MusicXML's vocabulary, in no order
    xml::Node jumble( pbt::Tape& t, int depth )
    {
        xml::Node n;
        n.name = t.pick( xml::grammar().elements ).first;
        while( t.more( 0.7 ) )
        {
            static const std::vector<std::string> a{ "number", "type", "id", "default-x", "placement", "font-size", "color", "print-object", "line-type", "value", "location", "xlink:href", "xml:lang", "bezier-x", "spread", "size", "text", "divisions", "tempo", "version" };
            n.setAttr( t.pick( a ), t.pick( tokens() ).substr( 0, 12 ) );
        }
        if( depth < 5 ) while( t.more( depth < 2 ? 2.5 : 0.9 ) ) n.kids.push_back( jumble( t, depth + 1 ) );
        if( n.kids.empty() && t.coin() ) n.text = t.pick<const char*>( { "1", "0", "-1", "x", "A", "quarter", "begin", "99999999999", "1.5", "up" } );
        return n;
    }
    void rename( pbt::Tape& t, xml::Node& n )
    {
        for( auto& k : n.kids )
        {
            if( t.chance( 1, 40 ) ) k.name = t.pick( xml::grammar().elements ).first;
            if( t.chance( 1, 60 ) ) k = jumble( t, 3 );
            rename( t, k );
        }
    }
    void trees( pbt::Tape& t, pbt::Ctx& c )
    {
        xml::Node n;
        switch( t.weighted( { 5, 2, 1 } ) )
        {
        case 0: n = docs::fromSchema( t, c, 200 ); break;
        case 1:
        {
            auto p = xml::parse( docs::sample( t, c, 12000 ) );
            if( !p.ok ) throw pbt::Discard{};
            n = p.root;
            break;
        }
        default:
            n = jumble( t, 0 );
            n.name = t.pick<const char*>( { "score-partwise", "score-timewise" } );
            break;
        }
        docs::mutate( t, n, t.pick<int>( { 1, 2, 4, 10, 30 } ) );
        if( t.chance( 1, 3 ) ) rename( t, n );
        if( t.chance( 1, 60 ) ) // deep
        {
            xml::Node* p = &n;
            while( !p->kids.empty() ) p = &p->kids.back();
            const int depth = t.pick<int>( { 50, 300, 1500 } );
            for( int i = 0; i < depth; ++i ) { xml::Node k; k.name = "a"; p->kids.push_back( k ); p = &p->kids.back(); }
        }
        const std::string text = xml::serialize( n );
        c.input( text );
        c.nontrivial( text );
        judge( t, c, text );
    }

    // a source that stops working
    struct Source : std::streambuf
    {
        std::string data;
        size_t pos = 0, limit;
        int mode; // 0 end of file, 1 exception
        size_t step;
        bool seekable;
        char buf[4096];
        size_t bufStart = 0;
        Source( std::string d, size_t l, int m, size_t s, bool k ) : data( std::move( d ) ), limit( l ), mode( m ), step( s ), seekable( k ) {}
        int_type underflow() override
        {
            if( pos >= limit )
            {
                if( mode == 1 ) throw std::runtime_error( "the disk is gone" );
                return traits_type::eof();
            }
            const size_t n = std::min( { step, sizeof buf, limit - pos } );
            memcpy( buf, data.data() + pos, n );
            pos += n;
            setg( buf, buf, buf + n );
            return traits_type::to_int_type( buf[0] );
        }
        pos_type seekoff( off_type o, std::ios_base::seekdir d, std::ios_base::openmode ) override
        {
            if( !seekable ) return pos_type( off_type( -1 ) );
            const off_type cur = (off_type)pos - ( egptr() - gptr() );
            const off_type to = ( d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? cur : (off_type)data.size() ) + o;
            if( to < 0 || to > (off_type)data.size() ) return pos_type( off_type( -1 ) );
            pos = (size_t)to;
            setg( buf, buf, buf );
            return pos_type( to );
        }
        pos_type seekpos( pos_type p, std::ios_base::openmode m ) override { return seekoff( off_type( p ), std::ios_base::beg, m ); }
    };
    struct Sink : std::streambuf
    {
        std::string data;
        size_t limit;
        int mode;
        Sink( size_t l, int m ) : limit( l ), mode( m ) {}
        int_type overflow( int_type ch ) override
        {
            if( data.size() >= limit )
            {
                if( mode == 1 ) throw std::runtime_error( "the disk is full" );
                return traits_type::eof();
            }
            data += (char)ch;
            return ch;
        }
    };
    void faults( pbt::Tape& t, pbt::Ctx& c )
    {
        Witness w;
        const std::string text = base( t, c );
        std::string log = shown( text );
        int id = -1;
        const auto kind = t.weighted( { 5, 3, 2 } );
        if( kind == 0 ) // reading from a source that stops
        {
            const bool whole = t.chance( 1, 3 );
            const size_t limit = whole ? text.size() : t.below( (uint32_t)text.size() + 1 );
            Source src( text, limit, whole ? 0 : (int)t.below( 2 ), (size_t)t.pick<int>( { 4096, 1, 7, 100 } ), t.coin() );
            std::istream is( &src );
            // with failbit in it, the end of a source that cannot be measured is an exception too
            if( t.chance( 1, 3 ) ) is.exceptions( std::ios::badbit | ( src.seekable && t.coin() ? std::ios::failbit : std::ios::goodbit ) );
            const bool broken = t.chance( 1, 12 );
            if( broken ) { try { is.setstate( std::ios::badbit ); } catch( const std::ios_base::failure& ) {} }
            log += "\n(source: " + std::to_string( limit ) + " of " + std::to_string( text.size() ) + " bytes, mode " + std::to_string( src.mode ) + ", " + std::to_string( src.step ) + " at a time, " + ( src.seekable ? "seekable" : "not seekable" ) + ( broken ? ", broken" : "" ) + ")";
            c.input( log );
            try { id = dm().createFromStream( is ); }
            catch( const std::exception& ) {}
            catch( ... ) { c.fail( "not-a-standard-exception", "reading from a failing source threw something not derived from std::exception\n" ); }
            if( whole && !broken )
            {
                int plain = -1;
                try { std::istringstream ok( text ); plain = dm().createFromStream( ok ); } catch( const std::exception& ) {}
                if( ( plain < 0 ) != ( id < 0 ) ) c.fail( "source-kind", std::string( "a document is " ) + ( id < 0 ? "refused" : "accepted" ) + " from this source and not from a string stream\n" );
                else if( id >= 0 && write( id ) != write( plain ) ) c.fail( "source-kind", "a document is different when it is read from this source\n" );
                if( plain >= 0 ) dm().destroyDocument( plain );
                c.nontrivial( log );
            }
            else if( ( src.mode == 1 && limit < text.size() ) || broken )
            {
                // nothing has been said about what was missing
                if( id >= 0 ) { c.fail( "read-error-ignored", "a document is accepted although reading it failed\n" ); }
                c.nontrivial( log );
            }
        }
        else if( kind == 1 ) // writing to a sink that fills up
        {
            try { id = open( text, 0 ); } catch( const std::exception& ) { throw pbt::Discard{}; }
            const std::string full = write( id );
            Sink sink( t.below( (uint32_t)full.size() + 20 ), (int)t.below( 2 ) );
            std::ostream os( &sink );
            if( t.coin() ) os.exceptions( std::ios::badbit | std::ios::failbit );
            log += "\n(sink of " + std::to_string( sink.limit ) + " bytes, mode " + std::to_string( sink.mode ) + ")";
            c.input( log );
            bool threw = false;
            try { dm().writeToStream( id, os ); }
            catch( const std::exception& ) { threw = true; }
            catch( ... ) { c.fail( "not-a-standard-exception", "writing to a failing sink threw something not derived from std::exception\n" ); }
            if( !threw && os.good() && sink.data != full ) c.fail( "write-error-hidden", "the sink is in good state and does not hold the document\n" );
            if( full.compare( 0, sink.data.size(), sink.data ) != 0 ) c.fail( "written-prefix", "what reached the sink is not the beginning of the document\n" );
            if( write( id ) != full ) c.fail( "written-after-failure", "the document is written differently after writing it has failed\n" );
            c.nontrivial( log );
        }
        else // files
        {
            const std::string dir = pbt::scratchDir() + "/r01dir";
            mkdir( dir.c_str(), 0777 );
            std::string path;
            switch( t.below( 6 ) )
            {
            case 0: path = dir + "/missing.xml"; break;
            case 1: path = ""; break;
            case 2: path = dir; break;
            case 3: path = dir + "/no/such/dir.xml"; break;
            case 4: path = "/dev/null"; break;
            default: path = dir + "/" + std::string( 300, 'x' ); break;
            }
            c.input( path.substr( 0, 60 ) );
            c.nontrivial( path );
            try { id = dm().createFromFile( path ); }
            catch( const std::exception& ) {}
            catch( ... ) { c.fail( "not-a-standard-exception", "reading a file threw something not derived from std::exception\n" ); }
            if( id >= 0 ) c.fail( "no-document-in-file", "a document was read from a file that has none: " + path + "\n" );
        }
        if( id >= 0 ) dm().destroyDocument( id );
        if( write( w.id ) != w.text ) c.fail( "other-document", "another document has changed\n" );
        Witness v;
        if( v.text != w.text ) c.fail( "later-document", "a document read afterwards is different\n" );
    }

    PBT_PROPERTY( pbt::Property{ "R01", "bytes", "more than eight bytes of damaged MusicXML; distinct by the bytes", bytes, 14000, 800000 } );
    PBT_PROPERTY( pbt::Property{ "R01", "trees", "a well-formed document of MusicXML's elements in the wrong places; distinct by its text", trees, 9000, 500000 } );
    PBT_PROPERTY( pbt::Property{ "R01", "faults", "a source, sink or file that fails; distinct by the text and the fault", faults, 4000, 100000 } );
}
