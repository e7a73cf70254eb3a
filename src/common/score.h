// Random scores within the domain the interface documents as storable, and the ways to carry a
// score through the library and back.
#pragma once
#include "common/gen.h"

namespace score
{
    using namespace mx::api;

    struct Opts
    {
        // how much of each area a score gets, in percent
        int notes = 60;       // variety of note fields
        int attachments = 15; // marks, curves, tuplets
        int directions = 15;
        int header = 10;      // score, part and group fields
        int measures = 15;    // keys, clefs, times, barlines, numbers, layout
        int maxParts = 3, maxMeasures = 4, maxStaves = 3, maxVoices = 3, maxItems = 7;
        bool text = true;     // texts with any characters (otherwise plain words)
    };
    ScoreData generate( pbt::Tape& t, const Opts& o );

    enum class Way { memory, text, file, timewise };
    const char* wayName( Way w );
    // createFromScore, optionally through text or a file, then getData; every document is destroyed.
    // musicXml receives the written form. Exceptions pass through.
    ScoreData trip( const ScoreData& s, Way w, std::string& musicXml );
    std::string write( const ScoreData& s );
    ScoreData read( const std::string& musicXml );

    // parts of the generator that other checks use on their own
    PositionData position( pbt::Tape& t, bool placement, bool align );
    std::string text( pbt::Tape& t, bool rich );
    std::string word( pbt::Tape& t );
    ColorData color( pbt::Tape& t );
    FontData font( pbt::Tape& t, bool decorations );
    MarkType articulation( pbt::Tape& t );
}
