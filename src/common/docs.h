// Documents as input: schema-driven ones and damaged copies of the repository's sample files.
#pragma once
#include "common/pbt.h"
#include "common/xml.h"

namespace docs
{
    // a schema-valid document with one element type populated densely
    xml::Node fromSchema( pbt::Tape& t, pbt::Ctx& c, int maxNodes = 300 );
    // replaces, mostly, the content which the library is known to reject outright (known findings of
    // C01): it would hide the rest of the document
    void accept( pbt::Tape& t, xml::Node& root );
    // a sample file of the repository (up to the given size), as text
    std::string sample( pbt::Tape& t, pbt::Ctx& c, size_t maxBytes );
    // change a tree in a few places: drop, repeat, move, swap nodes; change values and attributes
    void mutate( pbt::Tape& t, xml::Node& root, int edits );
    // number of sample files
    size_t samples( size_t maxBytes );
    std::string sampleText( size_t index, size_t maxBytes );
    std::string sampleName( size_t index, size_t maxBytes );
}
