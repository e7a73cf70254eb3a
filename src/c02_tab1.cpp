// written by tools/gen_c02.py
#include "c02.h"
#include "mx/core/elements/Accidental.h"
#include "mx/core/elements/AccidentalAttributes.h"
#include "mx/core/elements/AccidentalText.h"
#include "mx/core/elements/ActualNotes.h"
#include "mx/core/elements/Alter.h"
#include "mx/core/elements/Articulations.h"
#include "mx/core/elements/ArticulationsChoice.h"
#include "mx/core/elements/Bass.h"
#include "mx/core/elements/BassAlter.h"
#include "mx/core/elements/BassStep.h"
#include "mx/core/elements/BeatUnit.h"
#include "mx/core/elements/BeatUnitDot.h"
#include "mx/core/elements/BeatUnitGroup.h"
#include "mx/core/elements/Bookmark.h"
#include "mx/core/elements/BookmarkAttributes.h"
#include "mx/core/elements/Chromatic.h"
#include "mx/core/elements/CreditImage.h"
#include "mx/core/elements/CreditImageAttributes.h"
#include "mx/core/elements/Dashes.h"
#include "mx/core/elements/DashesAttributes.h"
#include "mx/core/elements/DelayedInvertedTurn.h"
#include "mx/core/elements/DelayedTurn.h"
#include "mx/core/elements/DetachedLegato.h"
#include "mx/core/elements/DisplayText.h"
#include "mx/core/elements/DisplayTextAttributes.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/DownBow.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/Elevation.h"
#include "mx/core/elements/Elision.h"
#include "mx/core/elements/ElisionAttributes.h"
#include "mx/core/elements/EmptyLineAttributes.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/EmptyPrintObjectStyleAlignAttributes.h"
#include "mx/core/elements/EmptyTrillSoundAttributes.h"
#include "mx/core/elements/EndLine.h"
#include "mx/core/elements/EndParagraph.h"
#include "mx/core/elements/Fermata.h"
#include "mx/core/elements/FermataAttributes.h"
#include "mx/core/elements/Footnote.h"
#include "mx/core/elements/FootnoteAttributes.h"
#include "mx/core/elements/FullNoteTypeChoice.h"
#include "mx/core/elements/GroupAbbreviation.h"
#include "mx/core/elements/GroupAbbreviationDisplay.h"
#include "mx/core/elements/GroupAbbreviationDisplayAttributes.h"
#include "mx/core/elements/GroupBarline.h"
#include "mx/core/elements/GroupName.h"
#include "mx/core/elements/GroupNameDisplay.h"
#include "mx/core/elements/GroupSymbol.h"
#include "mx/core/elements/GroupTime.h"
#include "mx/core/elements/Handbell.h"
#include "mx/core/elements/HandbellAttributes.h"
#include "mx/core/elements/Hole.h"
#include "mx/core/elements/HoleAttributes.h"
#include "mx/core/elements/HoleClosed.h"
#include "mx/core/elements/HoleShape.h"
#include "mx/core/elements/HoleType.h"
#include "mx/core/elements/InstrumentAbbreviation.h"
#include "mx/core/elements/InvertedMordent.h"
#include "mx/core/elements/InvertedTurn.h"
#include "mx/core/elements/Ipa.h"
#include "mx/core/elements/Laughing.h"
#include "mx/core/elements/LayoutGroup.h"
#include "mx/core/elements/Lyric.h"
#include "mx/core/elements/LyricAttributes.h"
#include "mx/core/elements/LyricTextChoice.h"
#include "mx/core/elements/MeasureLayout.h"
#include "mx/core/elements/MeasureNumbering.h"
#include "mx/core/elements/MeasureStyle.h"
#include "mx/core/elements/MeasureStyleAttributes.h"
#include "mx/core/elements/MeasureStyleChoice.h"
#include "mx/core/elements/MetronomeRelation.h"
#include "mx/core/elements/MidiBank.h"
#include "mx/core/elements/MidiChannel.h"
#include "mx/core/elements/MidiInstrument.h"
#include "mx/core/elements/MidiInstrumentAttributes.h"
#include "mx/core/elements/MidiName.h"
#include "mx/core/elements/MidiProgram.h"
#include "mx/core/elements/MidiUnpitched.h"
#include "mx/core/elements/Mordent.h"
#include "mx/core/elements/MordentAttributes.h"
#include "mx/core/elements/Natural.h"
#include "mx/core/elements/Notations.h"
#include "mx/core/elements/NotationsAttributes.h"
#include "mx/core/elements/NotationsChoice.h"
#include "mx/core/elements/NoteheadTextChoice.h"
#include "mx/core/elements/Octave.h"
#include "mx/core/elements/OrnamentsChoice.h"
#include "mx/core/elements/OtherOrnament.h"
#include "mx/core/elements/OtherTechnical.h"
#include "mx/core/elements/OtherTechnicalAttributes.h"
#include "mx/core/elements/Pan.h"
#include "mx/core/elements/PartAbbreviationDisplay.h"
#include "mx/core/elements/PartGroup.h"
#include "mx/core/elements/PartGroupAttributes.h"
#include "mx/core/elements/PartNameDisplay.h"
#include "mx/core/elements/Pedal.h"
#include "mx/core/elements/PedalAttributes.h"
#include "mx/core/elements/Pitch.h"
#include "mx/core/elements/Print.h"
#include "mx/core/elements/PrintAttributes.h"
#include "mx/core/elements/Rest.h"
#include "mx/core/elements/RightDivider.h"
#include "mx/core/elements/Schleifer.h"
#include "mx/core/elements/Scoop.h"
#include "mx/core/elements/SemiPitched.h"
#include "mx/core/elements/Shake.h"
#include "mx/core/elements/Slur.h"
#include "mx/core/elements/SlurAttributes.h"
#include "mx/core/elements/Spiccato.h"
#include "mx/core/elements/StaffSize.h"
#include "mx/core/elements/Step.h"
#include "mx/core/elements/StickMaterial.h"
#include "mx/core/elements/Supports.h"
#include "mx/core/elements/SupportsAttributes.h"
#include "mx/core/elements/Technical.h"
#include "mx/core/elements/TechnicalChoice.h"
#include "mx/core/elements/Time.h"
#include "mx/core/elements/TimeAttributes.h"
#include "mx/core/elements/TimeChoice.h"
#include "mx/core/elements/Timpani.h"
#include "mx/core/elements/Tremolo.h"
#include "mx/core/elements/TrillMark.h"
#include "mx/core/elements/TupletDot.h"
#include "mx/core/elements/TupletNormal.h"
#include "mx/core/elements/TupletNumber.h"
#include "mx/core/elements/TupletType.h"
#include "mx/core/elements/Turn.h"
#include "mx/core/elements/Unpitched.h"
#include "mx/core/elements/VerticalTurn.h"
#include "mx/core/elements/Volume.h"
#include "mx/core/elements/WavyLine.h"
#include "mx/core/elements/WithBar.h"
#include "mx/core/elements/WithBarAttributes.h"
using namespace mx::core;
namespace c02
{
void table1( std::vector<Class>& v )
{
CLASS( Accidental ) ATTRIBUTES( Accidental, AccidentalAttributes ) FLAG( AccidentalAttributes, Cautionary ) FLAG( AccidentalAttributes, Editorial ) FLAG( AccidentalAttributes, Parentheses ) FLAG( AccidentalAttributes, Bracket ) FLAG( AccidentalAttributes, Size ) FLAG( AccidentalAttributes, DefaultX ) FLAG( AccidentalAttributes, DefaultY ) FLAG( AccidentalAttributes, RelativeX ) FLAG( AccidentalAttributes, RelativeY ) FLAG( AccidentalAttributes, FontFamily ) FLAG( AccidentalAttributes, FontStyle ) FLAG( AccidentalAttributes, FontSize ) FLAG( AccidentalAttributes, FontWeight ) END
CLASS( ActualNotes ) END
CLASS( Articulations ) SET( Articulations, ArticulationsChoice, ArticulationsChoice, 0, -1 ) AT( Articulations, ArticulationsChoice ) END
CLASS( Bass ) ONE( Bass, BassStep, BassStep ) OPT( Bass, BassAlter, BassAlter ) END
CLASS( BeatUnitGroup ) ONE( BeatUnitGroup, BeatUnit, BeatUnit ) SET( BeatUnitGroup, BeatUnitDot, BeatUnitDot, 0, -1 ) END
CLASS( Bookmark ) ATTRIBUTES( Bookmark, BookmarkAttributes ) ALWAYS( Id ) FLAG( BookmarkAttributes, Name ) FLAG( BookmarkAttributes, Element ) FLAG( BookmarkAttributes, Position ) END
CLASS( Chromatic ) END
CLASS( CreditImage ) ATTRIBUTES( CreditImage, CreditImageAttributes ) ALWAYS( Source ) ALWAYS( Type ) FLAG( CreditImageAttributes, DefaultX ) FLAG( CreditImageAttributes, DefaultY ) FLAG( CreditImageAttributes, RelativeX ) FLAG( CreditImageAttributes, RelativeY ) FLAG( CreditImageAttributes, Halign ) END
CLASS( Dashes ) ATTRIBUTES( Dashes, DashesAttributes ) ALWAYS( Type ) FLAG( DashesAttributes, Number ) FLAG( DashesAttributes, DashLength ) FLAG( DashesAttributes, SpaceLength ) FLAG( DashesAttributes, DefaultX ) FLAG( DashesAttributes, DefaultY ) FLAG( DashesAttributes, RelativeX ) FLAG( DashesAttributes, RelativeY ) END
CLASS( DetachedLegato ) ATTRIBUTES( DetachedLegato, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( DisplayText ) ATTRIBUTES( DisplayText, DisplayTextAttributes ) FLAG( DisplayTextAttributes, Justify ) FLAG( DisplayTextAttributes, DefaultX ) FLAG( DisplayTextAttributes, DefaultY ) FLAG( DisplayTextAttributes, RelativeX ) FLAG( DisplayTextAttributes, RelativeY ) FLAG( DisplayTextAttributes, FontFamily ) FLAG( DisplayTextAttributes, FontStyle ) FLAG( DisplayTextAttributes, FontSize ) FLAG( DisplayTextAttributes, FontWeight ) FLAG( DisplayTextAttributes, Halign ) FLAG( DisplayTextAttributes, Underline ) FLAG( DisplayTextAttributes, Overline ) FLAG( DisplayTextAttributes, LineThrough ) FLAG( DisplayTextAttributes, Rotation ) FLAG( DisplayTextAttributes, LetterSpacing ) FLAG( DisplayTextAttributes, LineHeight ) FLAG( DisplayTextAttributes, Lang ) FLAG( DisplayTextAttributes, Space ) FLAG( DisplayTextAttributes, Enclosure ) END
CLASS( DownBow ) ATTRIBUTES( DownBow, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( Elision ) ATTRIBUTES( Elision, ElisionAttributes ) FLAG( ElisionAttributes, FontFamily ) FLAG( ElisionAttributes, FontStyle ) FLAG( ElisionAttributes, FontSize ) FLAG( ElisionAttributes, FontWeight ) FLAG( ElisionAttributes, Underline ) FLAG( ElisionAttributes, Overline ) FLAG( ElisionAttributes, LineThrough ) FLAG( ElisionAttributes, Rotation ) FLAG( ElisionAttributes, LetterSpacing ) FLAG( ElisionAttributes, Lang ) END
CLASS( EndLine ) END
CLASS( Fermata ) ATTRIBUTES( Fermata, FermataAttributes ) FLAG( FermataAttributes, Type ) FLAG( FermataAttributes, DefaultX ) FLAG( FermataAttributes, DefaultY ) FLAG( FermataAttributes, RelativeX ) FLAG( FermataAttributes, RelativeY ) FLAG( FermataAttributes, FontFamily ) FLAG( FermataAttributes, FontStyle ) FLAG( FermataAttributes, FontSize ) FLAG( FermataAttributes, FontWeight ) FLAG( FermataAttributes, Color ) END
CLASS( Footnote ) ATTRIBUTES( Footnote, FootnoteAttributes ) FLAG( FootnoteAttributes, Justify ) FLAG( FootnoteAttributes, DefaultX ) FLAG( FootnoteAttributes, DefaultY ) FLAG( FootnoteAttributes, RelativeX ) FLAG( FootnoteAttributes, RelativeY ) FLAG( FootnoteAttributes, FontFamily ) FLAG( FootnoteAttributes, FontStyle ) FLAG( FootnoteAttributes, FontSize ) FLAG( FootnoteAttributes, FontWeight ) FLAG( FootnoteAttributes, Halign ) FLAG( FootnoteAttributes, Underline ) FLAG( FootnoteAttributes, Overline ) FLAG( FootnoteAttributes, LineThrough ) FLAG( FootnoteAttributes, Rotation ) FLAG( FootnoteAttributes, LetterSpacing ) FLAG( FootnoteAttributes, LineHeight ) FLAG( FootnoteAttributes, Lang ) FLAG( FootnoteAttributes, Space ) FLAG( FootnoteAttributes, Enclosure ) END
CLASS( FullNoteTypeChoice ) ONE( FullNoteTypeChoice, Pitch, Pitch ) ONE( FullNoteTypeChoice, Unpitched, Unpitched ) ONE( FullNoteTypeChoice, Rest, Rest ) CHOICE( FullNoteTypeChoice, FullNoteTypeChoice::Choice ) PICK( FullNoteTypeChoice::Choice, pitch ) PICK( FullNoteTypeChoice::Choice, unpitched ) PICK( FullNoteTypeChoice::Choice, rest ) END
CLASS( GroupAbbreviationDisplay ) SET( GroupAbbreviationDisplay, DisplayTextOrAccidentalText, DisplayTextOrAccidentalText, 0, -1 ) ATTRIBUTES( GroupAbbreviationDisplay, GroupAbbreviationDisplayAttributes ) FLAG( GroupAbbreviationDisplayAttributes, PrintObject ) END
CLASS( Handbell ) ATTRIBUTES( Handbell, HandbellAttributes ) FLAG( HandbellAttributes, DefaultX ) FLAG( HandbellAttributes, DefaultY ) FLAG( HandbellAttributes, RelativeX ) FLAG( HandbellAttributes, RelativeY ) FLAG( HandbellAttributes, FontFamily ) FLAG( HandbellAttributes, FontStyle ) FLAG( HandbellAttributes, FontSize ) FLAG( HandbellAttributes, FontWeight ) FLAG( HandbellAttributes, Placement ) END
CLASS( Hole ) OPT( Hole, HoleType, HoleType ) ONE( Hole, HoleClosed, HoleClosed ) OPT( Hole, HoleShape, HoleShape ) ATTRIBUTES( Hole, HoleAttributes ) FLAG( HoleAttributes, DefaultX ) FLAG( HoleAttributes, DefaultY ) FLAG( HoleAttributes, RelativeX ) FLAG( HoleAttributes, RelativeY ) FLAG( HoleAttributes, FontFamily ) FLAG( HoleAttributes, FontStyle ) FLAG( HoleAttributes, FontSize ) FLAG( HoleAttributes, FontWeight ) FLAG( HoleAttributes, Color ) FLAG( HoleAttributes, Placement ) END
CLASS( InstrumentAbbreviation ) END
CLASS( Ipa ) END
CLASS( Laughing ) END
CLASS( Lyric ) ONE( Lyric, LyricTextChoice, LyricTextChoice ) OPT( Lyric, EndLine, EndLine ) OPT( Lyric, EndParagraph, EndParagraph ) ONE( Lyric, EditorialGroup, EditorialGroup ) ATTRIBUTES( Lyric, LyricAttributes ) FLAG( LyricAttributes, Number ) FLAG( LyricAttributes, Name ) FLAG( LyricAttributes, Justify ) FLAG( LyricAttributes, DefaultX ) FLAG( LyricAttributes, DefaultY ) FLAG( LyricAttributes, RelativeX ) FLAG( LyricAttributes, RelativeY ) FLAG( LyricAttributes, Placement ) FLAG( LyricAttributes, Color ) FLAG( LyricAttributes, PrintObject ) END
CLASS( MeasureStyle ) ONE( MeasureStyle, MeasureStyleChoice, MeasureStyleChoice ) ATTRIBUTES( MeasureStyle, MeasureStyleAttributes ) FLAG( MeasureStyleAttributes, Number ) FLAG( MeasureStyleAttributes, FontFamily ) FLAG( MeasureStyleAttributes, FontStyle ) FLAG( MeasureStyleAttributes, FontSize ) FLAG( MeasureStyleAttributes, FontWeight ) FLAG( MeasureStyleAttributes, Color ) END
CLASS( MetronomeRelation ) END
CLASS( MidiInstrument ) OPT( MidiInstrument, MidiChannel, MidiChannel ) OPT( MidiInstrument, MidiName, MidiName ) OPT( MidiInstrument, MidiBank, MidiBank ) OPT( MidiInstrument, MidiProgram, MidiProgram ) OPT( MidiInstrument, MidiUnpitched, MidiUnpitched ) OPT( MidiInstrument, Volume, Volume ) OPT( MidiInstrument, Pan, Pan ) OPT( MidiInstrument, Elevation, Elevation ) ATTRIBUTES( MidiInstrument, MidiInstrumentAttributes ) ALWAYS( Id ) END
CLASS( Mordent ) ATTRIBUTES( Mordent, MordentAttributes ) FLAG( MordentAttributes, DefaultX ) FLAG( MordentAttributes, DefaultY ) FLAG( MordentAttributes, RelativeX ) FLAG( MordentAttributes, RelativeY ) FLAG( MordentAttributes, FontFamily ) FLAG( MordentAttributes, FontStyle ) FLAG( MordentAttributes, FontSize ) FLAG( MordentAttributes, FontWeight ) FLAG( MordentAttributes, Color ) FLAG( MordentAttributes, Placement ) FLAG( MordentAttributes, StartNote ) FLAG( MordentAttributes, TrillStep ) FLAG( MordentAttributes, TwoNoteTurn ) FLAG( MordentAttributes, Accelerate ) FLAG( MordentAttributes, Beats ) FLAG( MordentAttributes, SecondBeat ) FLAG( MordentAttributes, LastBeat ) FLAG( MordentAttributes, Long ) FLAG( MordentAttributes, Approach ) FLAG( MordentAttributes, Departure ) END
CLASS( Natural ) END
CLASS( Notations ) ONE( Notations, EditorialGroup, EditorialGroup ) SET( Notations, NotationsChoice, NotationsChoice, 0, -1 ) AT( Notations, NotationsChoice ) ATTRIBUTES( Notations, NotationsAttributes ) FLAG( NotationsAttributes, PrintObject ) END
CLASS( NoteheadTextChoice ) ONE( NoteheadTextChoice, DisplayText, DisplayText ) ONE( NoteheadTextChoice, AccidentalText, AccidentalText ) CHOICE( NoteheadTextChoice, NoteheadTextChoice::Choice ) PICK( NoteheadTextChoice::Choice, displayText ) PICK( NoteheadTextChoice::Choice, accidentalText ) END
CLASS( OrnamentsChoice ) ONE( OrnamentsChoice, TrillMark, TrillMark ) ONE( OrnamentsChoice, Turn, Turn ) ONE( OrnamentsChoice, DelayedTurn, DelayedTurn ) ONE( OrnamentsChoice, InvertedTurn, InvertedTurn ) ONE( OrnamentsChoice, DelayedInvertedTurn, DelayedInvertedTurn ) ONE( OrnamentsChoice, VerticalTurn, VerticalTurn ) ONE( OrnamentsChoice, Shake, Shake ) ONE( OrnamentsChoice, WavyLine, WavyLine ) ONE( OrnamentsChoice, Mordent, Mordent ) ONE( OrnamentsChoice, InvertedMordent, InvertedMordent ) ONE( OrnamentsChoice, Schleifer, Schleifer ) ONE( OrnamentsChoice, Tremolo, Tremolo ) ONE( OrnamentsChoice, OtherOrnament, OtherOrnament ) CHOICE( OrnamentsChoice, OrnamentsChoice::Choice ) PICK( OrnamentsChoice::Choice, trillMark ) PICK( OrnamentsChoice::Choice, turn ) PICK( OrnamentsChoice::Choice, delayedTurn ) PICK( OrnamentsChoice::Choice, invertedTurn ) PICK( OrnamentsChoice::Choice, delayedInvertedTurn ) PICK( OrnamentsChoice::Choice, verticalTurn ) PICK( OrnamentsChoice::Choice, shake ) PICK( OrnamentsChoice::Choice, wavyLine ) PICK( OrnamentsChoice::Choice, mordent ) PICK( OrnamentsChoice::Choice, invertedMordent ) PICK( OrnamentsChoice::Choice, schleifer ) PICK( OrnamentsChoice::Choice, tremolo ) PICK( OrnamentsChoice::Choice, otherOrnament ) END
CLASS( OtherTechnical ) ATTRIBUTES( OtherTechnical, OtherTechnicalAttributes ) FLAG( OtherTechnicalAttributes, DefaultX ) FLAG( OtherTechnicalAttributes, DefaultY ) FLAG( OtherTechnicalAttributes, RelativeX ) FLAG( OtherTechnicalAttributes, RelativeY ) FLAG( OtherTechnicalAttributes, FontFamily ) FLAG( OtherTechnicalAttributes, FontStyle ) FLAG( OtherTechnicalAttributes, FontSize ) FLAG( OtherTechnicalAttributes, FontWeight ) FLAG( OtherTechnicalAttributes, Placement ) END
CLASS( PartGroup ) OPT( PartGroup, GroupName, GroupName ) OPT( PartGroup, GroupNameDisplay, GroupNameDisplay ) OPT( PartGroup, GroupAbbreviation, GroupAbbreviation ) OPT( PartGroup, GroupAbbreviationDisplay, GroupAbbreviationDisplay ) OPT( PartGroup, GroupSymbol, GroupSymbol ) OPT( PartGroup, GroupBarline, GroupBarline ) OPT( PartGroup, GroupTime, GroupTime ) ONE( PartGroup, EditorialGroup, EditorialGroup ) ATTRIBUTES( PartGroup, PartGroupAttributes ) ALWAYS( Type ) FLAG( PartGroupAttributes, Number ) END
CLASS( Pedal ) ATTRIBUTES( Pedal, PedalAttributes ) ALWAYS( Type ) FLAG( PedalAttributes, Line ) FLAG( PedalAttributes, Sign ) FLAG( PedalAttributes, DefaultX ) FLAG( PedalAttributes, DefaultY ) FLAG( PedalAttributes, RelativeX ) FLAG( PedalAttributes, RelativeY ) FLAG( PedalAttributes, FontFamily ) FLAG( PedalAttributes, FontStyle ) FLAG( PedalAttributes, FontSize ) FLAG( PedalAttributes, FontWeight ) FLAG( PedalAttributes, Halign ) END
CLASS( Pitch ) ONE( Pitch, Step, Step ) OPT( Pitch, Alter, Alter ) ONE( Pitch, Octave, Octave ) END
CLASS( Print ) ONE( Print, LayoutGroup, LayoutGroup ) OPT( Print, MeasureLayout, MeasureLayout ) OPT( Print, MeasureNumbering, MeasureNumbering ) OPT( Print, PartNameDisplay, PartNameDisplay ) OPT( Print, PartAbbreviationDisplay, PartAbbreviationDisplay ) ATTRIBUTES( Print, PrintAttributes ) FLAG( PrintAttributes, StaffSpacing ) FLAG( PrintAttributes, NewSystem ) FLAG( PrintAttributes, NewPage ) FLAG( PrintAttributes, BlankPage ) FLAG( PrintAttributes, PageNumber ) END
CLASS( RightDivider ) ATTRIBUTES( RightDivider, EmptyPrintObjectStyleAlignAttributes ) FLAG( EmptyPrintObjectStyleAlignAttributes, PrintObject ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultX ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultY ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeX ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeY ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontFamily ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontStyle ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontSize ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontWeight ) FLAG( EmptyPrintObjectStyleAlignAttributes, Color ) FLAG( EmptyPrintObjectStyleAlignAttributes, Halign ) FLAG( EmptyPrintObjectStyleAlignAttributes, Valign ) END
CLASS( Scoop ) ATTRIBUTES( Scoop, EmptyLineAttributes ) FLAG( EmptyLineAttributes, LineShape ) FLAG( EmptyLineAttributes, LineType ) FLAG( EmptyLineAttributes, DashLength ) FLAG( EmptyLineAttributes, SpaceLength ) FLAG( EmptyLineAttributes, DefaultX ) FLAG( EmptyLineAttributes, DefaultY ) FLAG( EmptyLineAttributes, RelativeX ) FLAG( EmptyLineAttributes, RelativeY ) FLAG( EmptyLineAttributes, FontFamily ) FLAG( EmptyLineAttributes, FontStyle ) FLAG( EmptyLineAttributes, FontSize ) FLAG( EmptyLineAttributes, FontWeight ) FLAG( EmptyLineAttributes, Placement ) END
CLASS( SemiPitched ) END
CLASS( Slur ) ATTRIBUTES( Slur, SlurAttributes ) ALWAYS( Type ) FLAG( SlurAttributes, Number ) FLAG( SlurAttributes, LineType ) FLAG( SlurAttributes, DashLength ) FLAG( SlurAttributes, SpaceLength ) FLAG( SlurAttributes, DefaultX ) FLAG( SlurAttributes, DefaultY ) FLAG( SlurAttributes, RelativeX ) FLAG( SlurAttributes, RelativeY ) FLAG( SlurAttributes, Placement ) FLAG( SlurAttributes, Orientation ) FLAG( SlurAttributes, BezierOffset ) FLAG( SlurAttributes, BezierOffset2 ) FLAG( SlurAttributes, BezierX ) FLAG( SlurAttributes, BezierY ) FLAG( SlurAttributes, BezierX2 ) FLAG( SlurAttributes, BezierY2 ) FLAG( SlurAttributes, Color ) END
CLASS( Spiccato ) ATTRIBUTES( Spiccato, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( StaffSize ) END
CLASS( StickMaterial ) END
CLASS( Supports ) ATTRIBUTES( Supports, SupportsAttributes ) ALWAYS( Type ) ALWAYS( Element ) FLAG( SupportsAttributes, Attribute ) FLAG( SupportsAttributes, Value ) END
CLASS( Technical ) SET( Technical, TechnicalChoice, TechnicalChoice, 0, -1 ) AT( Technical, TechnicalChoice ) END
CLASS( Time ) ONE( Time, TimeChoice, TimeChoice ) ATTRIBUTES( Time, TimeAttributes ) FLAG( TimeAttributes, Number ) FLAG( TimeAttributes, Symbol ) FLAG( TimeAttributes, Separator ) FLAG( TimeAttributes, DefaultX ) FLAG( TimeAttributes, DefaultY ) FLAG( TimeAttributes, RelativeX ) FLAG( TimeAttributes, RelativeY ) FLAG( TimeAttributes, FontFamily ) FLAG( TimeAttributes, FontStyle ) FLAG( TimeAttributes, FontSize ) FLAG( TimeAttributes, FontWeight ) FLAG( TimeAttributes, Color ) FLAG( TimeAttributes, Halign ) FLAG( TimeAttributes, Valign ) FLAG( TimeAttributes, PrintObject ) END
CLASS( Timpani ) END
CLASS( TrillMark ) ATTRIBUTES( TrillMark, EmptyTrillSoundAttributes ) FLAG( EmptyTrillSoundAttributes, DefaultX ) FLAG( EmptyTrillSoundAttributes, DefaultY ) FLAG( EmptyTrillSoundAttributes, RelativeX ) FLAG( EmptyTrillSoundAttributes, RelativeY ) FLAG( EmptyTrillSoundAttributes, FontFamily ) FLAG( EmptyTrillSoundAttributes, FontStyle ) FLAG( EmptyTrillSoundAttributes, FontSize ) FLAG( EmptyTrillSoundAttributes, FontWeight ) FLAG( EmptyTrillSoundAttributes, Placement ) FLAG( EmptyTrillSoundAttributes, StartNote ) FLAG( EmptyTrillSoundAttributes, TrillStep ) FLAG( EmptyTrillSoundAttributes, TwoNoteTurn ) FLAG( EmptyTrillSoundAttributes, Accelerate ) FLAG( EmptyTrillSoundAttributes, Beats ) FLAG( EmptyTrillSoundAttributes, SecondBeat ) FLAG( EmptyTrillSoundAttributes, LastBeat ) END
CLASS( TupletNormal ) OPT( TupletNormal, TupletNumber, TupletNumber ) OPT( TupletNormal, TupletType, TupletType ) SET( TupletNormal, TupletDot, TupletDot, 0, -1 ) AT( TupletNormal, TupletDot ) END
CLASS( VerticalTurn ) ATTRIBUTES( VerticalTurn, EmptyTrillSoundAttributes ) FLAG( EmptyTrillSoundAttributes, DefaultX ) FLAG( EmptyTrillSoundAttributes, DefaultY ) FLAG( EmptyTrillSoundAttributes, RelativeX ) FLAG( EmptyTrillSoundAttributes, RelativeY ) FLAG( EmptyTrillSoundAttributes, FontFamily ) FLAG( EmptyTrillSoundAttributes, FontStyle ) FLAG( EmptyTrillSoundAttributes, FontSize ) FLAG( EmptyTrillSoundAttributes, FontWeight ) FLAG( EmptyTrillSoundAttributes, Placement ) FLAG( EmptyTrillSoundAttributes, StartNote ) FLAG( EmptyTrillSoundAttributes, TrillStep ) FLAG( EmptyTrillSoundAttributes, TwoNoteTurn ) FLAG( EmptyTrillSoundAttributes, Accelerate ) FLAG( EmptyTrillSoundAttributes, Beats ) FLAG( EmptyTrillSoundAttributes, SecondBeat ) FLAG( EmptyTrillSoundAttributes, LastBeat ) END
CLASS( WithBar ) ATTRIBUTES( WithBar, WithBarAttributes ) FLAG( WithBarAttributes, DefaultX ) FLAG( WithBarAttributes, DefaultY ) FLAG( WithBarAttributes, RelativeX ) FLAG( WithBarAttributes, RelativeY ) FLAG( WithBarAttributes, FontFamily ) FLAG( WithBarAttributes, FontStyle ) FLAG( WithBarAttributes, FontSize ) FLAG( WithBarAttributes, FontWeight ) FLAG( WithBarAttributes, Placement ) END
}
}
