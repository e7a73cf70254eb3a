#include "common/docs.h"
#include <algorithm>
#include <dirent.h>
#include <map>
#include <sys/stat.h>

namespace docs
{
    using namespace xml;

    void accept( pbt::Tape& t, Node& n )
    {
        if( n.name == "instrument-sound" && !t.chance( 1, 20 ) )
            n.text = t.pick<const char*>( { "keyboard.piano", "strings.violin", "brass.trumpet", "wind.flutes.flute", "drum.snare-drum", "voice.alto" } );
        if( n.name == "dynamics" && n.kids.empty() && !t.chance( 1, 20 ) )
        {
            Node k;
            k.name = t.pick<const char*>( { "p", "f", "mf", "sfz", "pp" } );
            n.kids.push_back( k );
        }
        for( auto& k : n.kids ) accept( t, k );
    }

    Node fromSchema( pbt::Tape& t, pbt::Ctx& c, int maxNodes )
    {
        const auto& els = grammar().elements;
        GenOptions o;
        const size_t i = t.below( (uint32_t)els.size() );
        o.target = els[i].second;
        o.targetName = els[i].first;
        o.density = t.pick<double>( { 0.1, 0.05, 0.3 } );
        o.targetDensity = t.pick<double>( { 0.7, 0.4, 0.95 } );
        o.maxNodes = maxNodes;
        o.simpleText = t.chance( 3, 4 );
        c.tag( "schema" );
        Node n = genDocument( t, o );
        accept( t, n );
        return n;
    }

    namespace
    {
        struct File { std::string path; size_t size; };
        void list( const std::string& dir, std::vector<File>& out )
        {
            DIR* d = opendir( dir.c_str() );
            if( !d ) return;
            while( auto e = readdir( d ) )
            {
                const std::string n = e->d_name;
                if( n[0] == '.' ) continue;
                const std::string p = dir + "/" + n;
                struct stat st;
                if( stat( p.c_str(), &st ) ) continue;
                if( S_ISDIR( st.st_mode ) ) { if( n != "expected" && n != "testOutput" ) list( p, out ); }
                else if( n.size() > 4 && n.substr( n.size() - 4 ) == ".xml" && n.find( ".out." ) == std::string::npos && n.find( ".fixup." ) == std::string::npos ) out.push_back( { p, (size_t)st.st_size } );
            }
            closedir( d );
        }
        const std::vector<File>& files( size_t maxBytes )
        {
            static std::map<size_t, std::vector<File>> cache;
            auto& v = cache[maxBytes];
            if( v.empty() )
            {
                list( pbt::repoDir() + "/Resources", v );
                v.erase( std::remove_if( v.begin(), v.end(), [&]( const File& f ) { return f.size > maxBytes; } ), v.end() );
                std::sort( v.begin(), v.end(), []( const File& a, const File& b ) { return a.path < b.path; } );
            }
            return v;
        }
        void collect( Node& n, std::vector<Node*>& out )
        {
            out.push_back( &n );
            for( auto& k : n.kids ) collect( k, out );
        }
        std::string mutated( pbt::Tape& t, const std::string& v )
        {
            switch( t.below( 8 ) )
            {
            case 0: return "";
            case 1: return t.pick<const char*>( { "0", "1", "-1", "2", "7", "16", "100", "0.5", "-0.5", "1.25", "3.14159" } );
            case 2: return t.pick<const char*>( { "2147483647", "-2147483648", "2147483648", "4294967296", "9223372036854775807", "99999999999999999999", "1e10", "1e400", "NaN", "INF", "0x10", "1e-400", "-0", "+5", "007" } );
            case 3: return t.pick<const char*>( { "yes", "no", "start", "stop", "above", "right", "left", "up", "down", "#123456", "P1", "x", "large", "bold", "none" } );
            case 4: return std::to_string( t.range( -300, 300 ) );
            case 5: return v + v;
            case 6:
            {
                if( v.empty() ) return " ";
                size_t n = v.size() - 1; // a whole character, the document has to stay UTF-8
                while( n && ( (unsigned char)v[n] & 0xC0 ) == 0x80 ) --n;
                return v.substr( 0, n );
            }
            default: return genText( t, t.coin() );
            }
        }
    }
    size_t samples( size_t maxBytes ) { return files( maxBytes ).size(); }
    std::string sampleText( size_t i, size_t maxBytes ) { return pbt::readFile( files( maxBytes ).at( i ).path ); }
    std::string sampleName( size_t i, size_t maxBytes ) { return files( maxBytes ).at( i ).path.substr( pbt::repoDir().size() + 1 ); }
    std::string sample( pbt::Tape& t, pbt::Ctx& c, size_t maxBytes )
    {
        c.tag( "sample" );
        return sampleText( t.below( (uint32_t)samples( maxBytes ) ), maxBytes );
    }

    void mutate( pbt::Tape& t, Node& root, int edits )
    {
        for( int e = 0; e < edits; ++e )
        {
            std::vector<Node*> all;
            collect( root, all );
            Node& n = *all[t.below( (uint32_t)all.size() )];
            const size_t k = n.kids.size();
            switch( t.below( 9 ) )
            {
            case 0: case 1: // a value
            {
                std::vector<Node*> leaves;
                for( auto p : all ) if( p->kids.empty() ) leaves.push_back( p );
                Node& l = *leaves[t.below( (uint32_t)leaves.size() )];
                l.text = mutated( t, l.text );
                break;
            }
            case 2: // an attribute
            {
                std::vector<Node*> some;
                for( auto p : all ) if( !p->attrs.empty() ) some.push_back( p );
                if( some.empty() ) break;
                Node& l = *some[t.below( (uint32_t)some.size() )];
                auto& a = l.attrs[t.below( (uint32_t)l.attrs.size() )];
                a.second = mutated( t, a.second );
                break;
            }
            case 3:
                if( !n.attrs.empty() ) n.attrs.erase( n.attrs.begin() + t.below( (uint32_t)n.attrs.size() ) );
                break;
            case 4: // drop a child
                if( k ) n.kids.erase( n.kids.begin() + t.below( (uint32_t)k ) );
                break;
            case 5: // repeat a child
                if( k )
                {
                    const Node copy = n.kids[t.below( (uint32_t)k )];
                    n.kids.insert( n.kids.begin() + t.below( (uint32_t)k + 1 ), copy );
                }
                break;
            case 6: // swap two children
                if( k > 1 ) std::swap( n.kids[t.below( (uint32_t)k )], n.kids[t.below( (uint32_t)k )] );
                break;
            case 7: // copy a node to another place
            {
                const Node copy = *all[t.below( (uint32_t)all.size() )];
                if( copy.count() < 60 ) n.kids.insert( n.kids.begin() + t.below( (uint32_t)k + 1 ), copy );
                break;
            }
            default: // swap the content of two nodes of the same name in different places
            {
                const Node& m = *all[t.below( (uint32_t)all.size() )];
                if( m.name == n.name && &m != &n && m.kids.empty() && n.kids.empty() ) n.text = m.text;
                else if( k ) { n.kids[t.below( (uint32_t)k )].attrs = m.attrs; }
                break;
            }
            }
        }
    }
}
