// A12: equality of api structures against the field list of reflect.h
#include "common/gen.h"
#include <sstream>
using namespace mx::api;

namespace
{
    template <class T> bool eq( const T& a, const T& b ) { return a == b; }

    template <class T> void check( pbt::Tape& t, pbt::Ctx& c, const char* type, T& a, size_t first, size_t count )
    {
        const std::string n = type;
        const T copy = a;
        auto bad = [&]( const std::string& fp, const std::string& m ) { c.fail( n + ": " + fp, m + "\n" ); };
        if( !eq( a, a ) ) bad( "not-reflexive", "a value does not equal itself" );
        if( a != a ) bad( "not-equal-to-itself", "a != a is true" );
        if( !eq( a, copy ) || !eq( copy, a ) ) bad( "copy-differs", "a copy does not equal its source" );
        if( a != copy ) bad( "copy-differs", "a != copy is true" );
        const size_t total = gen::places( a );
        for( size_t k = 0; k < count && k < total; ++k )
        {
            T m = copy;
            gen::Mutator mu{ t, ( first + k ) % total };
            refl::walk( mu, m );
            if( !mu.done ) continue;
            if( refl::flatten( m ) == refl::flatten( copy ) ) continue; // a decimal too large to move
            c.evaluations( 1 );
            c.nontrivial( n + "." + refl::fieldOf( mu.path ) + " " + mu.was + "->" + mu.is );
            c.tag( n );
            const bool e1 = eq( copy, m ), e2 = eq( m, copy ), n1 = copy != m, n2 = m != copy;
            const std::string what = n + "." + mu.path + ": " + mu.was + " -> " + mu.is;
            // the innermost structure that holds the field names the defect
            if( e1 || e2 ) bad( "unseen field " + refl::fieldOf( mu.path ), "changing one field leaves the values equal: " + what );
            if( e1 != e2 ) bad( "not-symmetric " + refl::fieldOf( mu.path ), "a==b and b==a differ: " + what );
            if( n1 == e1 || n2 == e2 ) bad( "inequality-is-not-the-negation " + refl::fieldOf( mu.path ), what );
            std::vector<T> va{ copy }, vb{ m };
            if( ( va == vb ) != e1 || ( va != vb ) == e1 ) bad( "vector-equality", what );
            if( vb == std::vector<T>{ m, m } || !( va == std::vector<T>{ copy } ) ) bad( "vector-equality", "sizes ignored: " + what );
        }
    }

    // a freshly declared value must not depend on what was in its memory
    template <class T> void fresh( pbt::Ctx& c, const char* name )
    {
        if constexpr( std::is_default_constructible<T>::value )
        {
            refl::Flat seen[2];
            for( int k = 0; k < 2; ++k )
            {
                alignas( T ) unsigned char memory[sizeof( T )];
                // bytes that are a legal value of every member type
                for( auto& b : memory ) b = k ? 1 : 0;
                asm volatile( "" : : "r"( memory ) : "memory" );
                T* v = new( memory ) T;
                seen[k] = refl::flatten( *v );
                v->~T();
            }
            for( auto& d : refl::diff( seen[0], seen[1] ) )
                c.fail( std::string( name ) + ": uninitialised " + d.field(), std::string( name ) + "." + d.path + " of a newly declared value depends on the memory's previous content" );
        }
    }

    template <class T> void one( pbt::Tape& t, pbt::Ctx& c, const char* name, bool all )
    {
        if( all ) fresh<T>( c, name );
        T a = gen::make<T>();
        gen::Opts o;
        o.density = all ? 60 : (int)t.pick<int>( { 0, 20, 50, 90 } );
        o.vec = t.pick<double>( { 0.6, 1.2, 1.0 } );
        o.depthVec = 3;
        o.budget = 400;
        gen::fill( t, a, o );
        const size_t n = gen::places( a );
        c.input( std::string( name ) + " with " + std::to_string( n ) + " fields and containers" );
        check( t, c, name, a, all ? 0 : t.below( (uint32_t)n ), all ? n : 12 );
    }
    struct Type
    {
        const char* name;
        void ( *run )( pbt::Tape&, pbt::Ctx&, const char*, bool );
    };
#define T( X ) { #X, &one<X> }
    const std::vector<Type> types = {
        T( AppearanceData ), T( BarlineData ), T( Extension ), T( ColorData ), T( MiscData ), T( PositionData ), T( ChordData ), T( ClefData ),
        T( CodaData ), T( SegnoData ), T( LineData ), T( CurvePoints ), T( CurveStart ), T( CurveContinue ), T( CurveStop ), T( LeftRight ),
        T( SizeData ), T( MarginsData ), T( PageMarginsData ), T( PageLayoutData ), T( SystemLayoutData ), T( SystemData ), T( PageData ),
        T( LayoutData ), T( DefaultsData ), T( FontData ), T( PrintData ), T( BeatsPerMinute ), T( MetricModulation ), T( TempoText ),
        T( TempoData ), T( MarkData ), T( WedgeStart ), T( WedgeStop ), T( SpannerStart ), T( SpannerStop ), T( OttavaStart ), T( WordsData ),
        T( RehearsalData ), T( DirectionData ), T( DurationData ), T( SupportedItem ), T( MiscellaneousField ), T( EncodingDate ),
        T( EncodingData ), T( KeyComponent ), T( KeyData ), T( LyricData ), T( MeasureLocation ), T( TupletStart ), T( TupletStop ),
        T( NoteAttachmentData ), T( PitchData ), T( NoteData ), T( VoiceData ), T( StaffData ), T( TimeSignatureData ), T( TransposeData ),
        T( MeasureData ), T( PageTextData ), T( MidiData ), T( InstrumentData ), T( PartData ), T( PartGroupData ), T( ScoreData ) };
#undef T

    // every field of every structure, on several contents
    void everyField( pbt::Tape& t, pbt::Ctx& c )
    {
        const Type& ty = types[c.caseIndex % types.size()];
        ty.run( t, c, ty.name, true );
    }
    // random structures, mostly whole scores
    void randomScores( pbt::Tape& t, pbt::Ctx& c )
    {
        const Type& ty = t.chance( 2, 3 ) ? types.back() : types[t.below( (uint32_t)types.size() )];
        ty.run( t, c, ty.name, false );
    }
}

PBT_PROPERTY( pbt::Property{ "A12", "fields", "a field or container of a structure was changed", everyField, 65 * 12, 65 * 200, 60, false, true } );
PBT_PROPERTY( { "A12", "scores", "a field or container anywhere in a random structure was changed", randomScores, 6000, 200000 } );
