// written by tools/gen_c02.py
#include "c02.h"
#include "mx/core/elements/Accord.h"
#include "mx/core/elements/AccordAttributes.h"
#include "mx/core/elements/AccordionRegistration.h"
#include "mx/core/elements/Arpeggiate.h"
#include "mx/core/elements/ArpeggiateAttributes.h"
#include "mx/core/elements/Artificial.h"
#include "mx/core/elements/Backup.h"
#include "mx/core/elements/Beam.h"
#include "mx/core/elements/BeamAttributes.h"
#include "mx/core/elements/Beater.h"
#include "mx/core/elements/BeaterAttributes.h"
#include "mx/core/elements/Bookmark.h"
#include "mx/core/elements/BottomMargin.h"
#include "mx/core/elements/Bracket.h"
#include "mx/core/elements/BreathMark.h"
#include "mx/core/elements/BreathMarkAttributes.h"
#include "mx/core/elements/ClefOctaveChange.h"
#include "mx/core/elements/Coda.h"
#include "mx/core/elements/CreditWords.h"
#include "mx/core/elements/CreditWordsGroup.h"
#include "mx/core/elements/CueNoteGroup.h"
#include "mx/core/elements/Damp.h"
#include "mx/core/elements/DampAll.h"
#include "mx/core/elements/Dashes.h"
#include "mx/core/elements/DegreeAlter.h"
#include "mx/core/elements/DegreeAlterAttributes.h"
#include "mx/core/elements/DirectionType.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/Divisions.h"
#include "mx/core/elements/Duration.h"
#include "mx/core/elements/Dynamics.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/EmptyLineAttributes.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/elements/Encoder.h"
#include "mx/core/elements/EncoderAttributes.h"
#include "mx/core/elements/Ensemble.h"
#include "mx/core/elements/Extend.h"
#include "mx/core/elements/Eyeglasses.h"
#include "mx/core/elements/FigureNumber.h"
#include "mx/core/elements/FigureNumberAttributes.h"
#include "mx/core/elements/Footnote.h"
#include "mx/core/elements/FrameFrets.h"
#include "mx/core/elements/Glissando.h"
#include "mx/core/elements/GlissandoAttributes.h"
#include "mx/core/elements/GraceNoteGroup.h"
#include "mx/core/elements/GroupNameDisplay.h"
#include "mx/core/elements/GroupNameDisplayAttributes.h"
#include "mx/core/elements/HarmonicTypeChoice.h"
#include "mx/core/elements/HarpPedals.h"
#include "mx/core/elements/HoleType.h"
#include "mx/core/elements/Humming.h"
#include "mx/core/elements/Image.h"
#include "mx/core/elements/InstrumentAbbreviation.h"
#include "mx/core/elements/InstrumentName.h"
#include "mx/core/elements/InstrumentSound.h"
#include "mx/core/elements/Instruments.h"
#include "mx/core/elements/KeyAlter.h"
#include "mx/core/elements/Laughing.h"
#include "mx/core/elements/LeftMargin.h"
#include "mx/core/elements/Level.h"
#include "mx/core/elements/Link.h"
#include "mx/core/elements/LyricTextChoice.h"
#include "mx/core/elements/Metal.h"
#include "mx/core/elements/Metronome.h"
#include "mx/core/elements/MetronomeType.h"
#include "mx/core/elements/MidiUnpitched.h"
#include "mx/core/elements/MultipleRest.h"
#include "mx/core/elements/MultipleRestAttributes.h"
#include "mx/core/elements/Natural.h"
#include "mx/core/elements/NormalDot.h"
#include "mx/core/elements/NormalNoteGroup.h"
#include "mx/core/elements/NormalType.h"
#include "mx/core/elements/NoteChoice.h"
#include "mx/core/elements/OctaveShift.h"
#include "mx/core/elements/OctaveShiftAttributes.h"
#include "mx/core/elements/OtherDirection.h"
#include "mx/core/elements/OtherDirectionAttributes.h"
#include "mx/core/elements/PageMargins.h"
#include "mx/core/elements/PageMarginsAttributes.h"
#include "mx/core/elements/PartName.h"
#include "mx/core/elements/PartNameAttributes.h"
#include "mx/core/elements/Pedal.h"
#include "mx/core/elements/PedalAlter.h"
#include "mx/core/elements/PedalStep.h"
#include "mx/core/elements/PedalTuning.h"
#include "mx/core/elements/Percussion.h"
#include "mx/core/elements/Plop.h"
#include "mx/core/elements/PrincipalVoice.h"
#include "mx/core/elements/Rehearsal.h"
#include "mx/core/elements/RehearsalAttributes.h"
#include "mx/core/elements/RightMargin.h"
#include "mx/core/elements/Root.h"
#include "mx/core/elements/RootAlter.h"
#include "mx/core/elements/RootStep.h"
#include "mx/core/elements/Scordatura.h"
#include "mx/core/elements/ScoreInstrument.h"
#include "mx/core/elements/ScoreInstrumentAttributes.h"
#include "mx/core/elements/Segno.h"
#include "mx/core/elements/Sign.h"
#include "mx/core/elements/Solo.h"
#include "mx/core/elements/SoloOrEnsembleChoice.h"
#include "mx/core/elements/Staff.h"
#include "mx/core/elements/Staves.h"
#include "mx/core/elements/Stress.h"
#include "mx/core/elements/StringMute.h"
#include "mx/core/elements/SyllabicTextGroup.h"
#include "mx/core/elements/SystemDistance.h"
#include "mx/core/elements/Tenuto.h"
#include "mx/core/elements/TimeModificationNormalTypeNormalDot.h"
#include "mx/core/elements/TopMargin.h"
#include "mx/core/elements/TopSystemDistance.h"
#include "mx/core/elements/TuningAlter.h"
#include "mx/core/elements/TuningOctave.h"
#include "mx/core/elements/TuningStep.h"
#include "mx/core/elements/Turn.h"
#include "mx/core/elements/TurnAttributes.h"
#include "mx/core/elements/VirtualInstrument.h"
#include "mx/core/elements/VirtualName.h"
#include "mx/core/elements/Wedge.h"
#include "mx/core/elements/Words.h"
#include "mx/core/elements/WordsAttributes.h"
using namespace mx::core;
namespace c02
{
void table4( std::vector<Class>& v )
{
CLASS( Accord ) ONE( Accord, TuningStep, TuningStep ) OPT( Accord, TuningAlter, TuningAlter ) ONE( Accord, TuningOctave, TuningOctave ) ATTRIBUTES( Accord, AccordAttributes ) FLAG( AccordAttributes, String ) END
CLASS( Arpeggiate ) ATTRIBUTES( Arpeggiate, ArpeggiateAttributes ) FLAG( ArpeggiateAttributes, Number ) FLAG( ArpeggiateAttributes, Direction ) FLAG( ArpeggiateAttributes, DefaultX ) FLAG( ArpeggiateAttributes, DefaultY ) FLAG( ArpeggiateAttributes, RelativeX ) FLAG( ArpeggiateAttributes, RelativeY ) FLAG( ArpeggiateAttributes, Placement ) END
CLASS( Backup ) ONE( Backup, Duration, Duration ) ONE( Backup, EditorialGroup, EditorialGroup ) END
CLASS( Beam ) ATTRIBUTES( Beam, BeamAttributes ) FLAG( BeamAttributes, Number ) FLAG( BeamAttributes, Repeater ) FLAG( BeamAttributes, Fan ) END
CLASS( Beater ) ATTRIBUTES( Beater, BeaterAttributes ) FLAG( BeaterAttributes, Tip ) END
CLASS( BreathMark ) ATTRIBUTES( BreathMark, BreathMarkAttributes ) FLAG( BreathMarkAttributes, DefaultX ) FLAG( BreathMarkAttributes, DefaultY ) FLAG( BreathMarkAttributes, RelativeX ) FLAG( BreathMarkAttributes, RelativeY ) FLAG( BreathMarkAttributes, FontFamily ) FLAG( BreathMarkAttributes, FontStyle ) FLAG( BreathMarkAttributes, FontSize ) FLAG( BreathMarkAttributes, FontWeight ) FLAG( BreathMarkAttributes, Placement ) END
CLASS( ClefOctaveChange ) END
CLASS( CreditWordsGroup ) ONE( CreditWordsGroup, CreditWords, CreditWords ) SET( CreditWordsGroup, Link, Link, 0, -1 ) AT( CreditWordsGroup, Link ) SET( CreditWordsGroup, Bookmark, Bookmark, 0, -1 ) AT( CreditWordsGroup, Bookmark ) END
CLASS( DegreeAlter ) ATTRIBUTES( DegreeAlter, DegreeAlterAttributes ) FLAG( DegreeAlterAttributes, DefaultX ) FLAG( DegreeAlterAttributes, DefaultY ) FLAG( DegreeAlterAttributes, RelativeX ) FLAG( DegreeAlterAttributes, RelativeY ) FLAG( DegreeAlterAttributes, FontFamily ) FLAG( DegreeAlterAttributes, FontStyle ) FLAG( DegreeAlterAttributes, FontSize ) FLAG( DegreeAlterAttributes, FontWeight ) FLAG( DegreeAlterAttributes, PlusMinus ) END
CLASS( DirectionType ) ONE( DirectionType, Wedge, Wedge ) ONE( DirectionType, Dashes, Dashes ) ONE( DirectionType, Bracket, Bracket ) ONE( DirectionType, Pedal, Pedal ) ONE( DirectionType, Metronome, Metronome ) ONE( DirectionType, OctaveShift, OctaveShift ) ONE( DirectionType, HarpPedals, HarpPedals ) ONE( DirectionType, Damp, Damp ) ONE( DirectionType, DampAll, DampAll ) ONE( DirectionType, Eyeglasses, Eyeglasses ) ONE( DirectionType, StringMute, StringMute ) ONE( DirectionType, Scordatura, Scordatura ) ONE( DirectionType, Image, Image ) ONE( DirectionType, PrincipalVoice, PrincipalVoice ) ONE( DirectionType, AccordionRegistration, AccordionRegistration ) ONE( DirectionType, OtherDirection, OtherDirection ) SET( DirectionType, Rehearsal, Rehearsal, 1, -1 ) AT( DirectionType, Rehearsal ) SET( DirectionType, Segno, Segno, 1, -1 ) AT( DirectionType, Segno ) SET( DirectionType, Words, Words, 1, -1 ) AT( DirectionType, Words ) SET( DirectionType, Coda, Coda, 1, -1 ) AT( DirectionType, Coda ) SET( DirectionType, Dynamics, Dynamics, 1, -1 ) AT( DirectionType, Dynamics ) SET( DirectionType, Percussion, Percussion, 1, -1 ) AT( DirectionType, Percussion ) CHOICE( DirectionType, DirectionType::Choice ) PICK( DirectionType::Choice, rehearsal ) PICK( DirectionType::Choice, segno ) PICK( DirectionType::Choice, words ) PICK( DirectionType::Choice, coda ) PICK( DirectionType::Choice, wedge ) PICK( DirectionType::Choice, dynamics ) PICK( DirectionType::Choice, dashes ) PICK( DirectionType::Choice, bracket ) PICK( DirectionType::Choice, pedal ) PICK( DirectionType::Choice, metronome ) PICK( DirectionType::Choice, octaveShift ) PICK( DirectionType::Choice, harpPedals ) PICK( DirectionType::Choice, damp ) PICK( DirectionType::Choice, dampAll ) PICK( DirectionType::Choice, eyeglasses ) PICK( DirectionType::Choice, stringMute ) PICK( DirectionType::Choice, scordatura ) PICK( DirectionType::Choice, image ) PICK( DirectionType::Choice, principalVoice ) PICK( DirectionType::Choice, accordionRegistration ) PICK( DirectionType::Choice, percussion ) PICK( DirectionType::Choice, otherDirection ) END
CLASS( Divisions ) END
CLASS( EditorialGroup ) OPT( EditorialGroup, Footnote, Footnote ) OPT( EditorialGroup, Level, Level ) END
CLASS( Encoder ) ATTRIBUTES( Encoder, EncoderAttributes ) FLAG( EncoderAttributes, Type ) END
CLASS( Ensemble ) END
CLASS( FigureNumber ) ATTRIBUTES( FigureNumber, FigureNumberAttributes ) FLAG( FigureNumberAttributes, DefaultX ) FLAG( FigureNumberAttributes, DefaultY ) FLAG( FigureNumberAttributes, RelativeX ) FLAG( FigureNumberAttributes, RelativeY ) FLAG( FigureNumberAttributes, FontFamily ) FLAG( FigureNumberAttributes, FontStyle ) FLAG( FigureNumberAttributes, FontSize ) FLAG( FigureNumberAttributes, FontWeight ) END
CLASS( FrameFrets ) END
CLASS( Glissando ) ATTRIBUTES( Glissando, GlissandoAttributes ) ALWAYS( Type ) FLAG( GlissandoAttributes, Number ) FLAG( GlissandoAttributes, LineType ) FLAG( GlissandoAttributes, DashLength ) FLAG( GlissandoAttributes, SpaceLength ) FLAG( GlissandoAttributes, DefaultX ) FLAG( GlissandoAttributes, DefaultY ) FLAG( GlissandoAttributes, RelativeX ) FLAG( GlissandoAttributes, RelativeY ) FLAG( GlissandoAttributes, FontFamily ) FLAG( GlissandoAttributes, FontStyle ) FLAG( GlissandoAttributes, FontSize ) FLAG( GlissandoAttributes, FontWeight ) END
CLASS( GroupNameDisplay ) SET( GroupNameDisplay, DisplayTextOrAccidentalText, DisplayTextOrAccidentalText, 0, -1 ) ATTRIBUTES( GroupNameDisplay, GroupNameDisplayAttributes ) FLAG( GroupNameDisplayAttributes, PrintObject ) END
CLASS( HarmonicTypeChoice ) ONE( HarmonicTypeChoice, Natural, Natural ) ONE( HarmonicTypeChoice, Artificial, Artificial ) CHOICE( HarmonicTypeChoice, HarmonicTypeChoice::Choice ) PICK( HarmonicTypeChoice::Choice, natural ) PICK( HarmonicTypeChoice::Choice, artificial ) END
CLASS( HoleType ) END
CLASS( Instruments ) END
CLASS( KeyAlter ) END
CLASS( LeftMargin ) END
CLASS( LyricTextChoice ) ONE( LyricTextChoice, SyllabicTextGroup, SyllabicTextGroup ) ONE( LyricTextChoice, Extend, Extend ) ONE( LyricTextChoice, Laughing, Laughing ) ONE( LyricTextChoice, Humming, Humming ) CHOICE( LyricTextChoice, LyricTextChoice::Choice ) PICK( LyricTextChoice::Choice, syllabicTextGroup ) PICK( LyricTextChoice::Choice, extend ) PICK( LyricTextChoice::Choice, laughing ) PICK( LyricTextChoice::Choice, humming ) END
CLASS( Metal ) END
CLASS( MetronomeType ) END
CLASS( MidiUnpitched ) END
CLASS( MultipleRest ) ATTRIBUTES( MultipleRest, MultipleRestAttributes ) FLAG( MultipleRestAttributes, UseSymbols ) END
CLASS( NormalDot ) END
CLASS( NoteChoice ) ONE( NoteChoice, GraceNoteGroup, GraceNoteGroup ) ONE( NoteChoice, CueNoteGroup, CueNoteGroup ) ONE( NoteChoice, NormalNoteGroup, NormalNoteGroup ) CHOICE( NoteChoice, NoteChoice::Choice ) PICK( NoteChoice::Choice, grace ) PICK( NoteChoice::Choice, cue ) PICK( NoteChoice::Choice, normal ) END
CLASS( OctaveShift ) ATTRIBUTES( OctaveShift, OctaveShiftAttributes ) ALWAYS( Type ) FLAG( OctaveShiftAttributes, Number ) FLAG( OctaveShiftAttributes, Size ) FLAG( OctaveShiftAttributes, DashLength ) FLAG( OctaveShiftAttributes, SpaceLength ) FLAG( OctaveShiftAttributes, DefaultX ) FLAG( OctaveShiftAttributes, DefaultY ) FLAG( OctaveShiftAttributes, RelativeX ) FLAG( OctaveShiftAttributes, RelativeY ) FLAG( OctaveShiftAttributes, FontFamily ) FLAG( OctaveShiftAttributes, FontStyle ) FLAG( OctaveShiftAttributes, FontSize ) FLAG( OctaveShiftAttributes, FontWeight ) END
CLASS( OtherDirection ) ATTRIBUTES( OtherDirection, OtherDirectionAttributes ) FLAG( OtherDirectionAttributes, PrintObject ) FLAG( OtherDirectionAttributes, DefaultX ) FLAG( OtherDirectionAttributes, DefaultY ) FLAG( OtherDirectionAttributes, RelativeX ) FLAG( OtherDirectionAttributes, RelativeY ) FLAG( OtherDirectionAttributes, FontFamily ) FLAG( OtherDirectionAttributes, FontStyle ) FLAG( OtherDirectionAttributes, FontSize ) FLAG( OtherDirectionAttributes, FontWeight ) FLAG( OtherDirectionAttributes, Halign ) END
CLASS( PageMargins ) ONE( PageMargins, LeftMargin, LeftMargin ) ONE( PageMargins, RightMargin, RightMargin ) ONE( PageMargins, TopMargin, TopMargin ) ONE( PageMargins, BottomMargin, BottomMargin ) ATTRIBUTES( PageMargins, PageMarginsAttributes ) FLAG( PageMarginsAttributes, Type ) END
CLASS( PartName ) ATTRIBUTES( PartName, PartNameAttributes ) FLAG( PartNameAttributes, DefaultX ) FLAG( PartNameAttributes, DefaultY ) FLAG( PartNameAttributes, RelativeX ) FLAG( PartNameAttributes, RelativeY ) FLAG( PartNameAttributes, FontFamily ) FLAG( PartNameAttributes, FontStyle ) FLAG( PartNameAttributes, FontSize ) FLAG( PartNameAttributes, FontWeight ) FLAG( PartNameAttributes, Color ) FLAG( PartNameAttributes, PrintObject ) FLAG( PartNameAttributes, Justify ) END
CLASS( PedalTuning ) ONE( PedalTuning, PedalStep, PedalStep ) ONE( PedalTuning, PedalAlter, PedalAlter ) END
CLASS( Plop ) ATTRIBUTES( Plop, EmptyLineAttributes ) FLAG( EmptyLineAttributes, LineShape ) FLAG( EmptyLineAttributes, LineType ) FLAG( EmptyLineAttributes, DashLength ) FLAG( EmptyLineAttributes, SpaceLength ) FLAG( EmptyLineAttributes, DefaultX ) FLAG( EmptyLineAttributes, DefaultY ) FLAG( EmptyLineAttributes, RelativeX ) FLAG( EmptyLineAttributes, RelativeY ) FLAG( EmptyLineAttributes, FontFamily ) FLAG( EmptyLineAttributes, FontStyle ) FLAG( EmptyLineAttributes, FontSize ) FLAG( EmptyLineAttributes, FontWeight ) FLAG( EmptyLineAttributes, Placement ) END
CLASS( Rehearsal ) ATTRIBUTES( Rehearsal, RehearsalAttributes ) FLAG( RehearsalAttributes, Justify ) FLAG( RehearsalAttributes, DefaultX ) FLAG( RehearsalAttributes, DefaultY ) FLAG( RehearsalAttributes, RelativeX ) FLAG( RehearsalAttributes, RelativeY ) FLAG( RehearsalAttributes, FontFamily ) FLAG( RehearsalAttributes, FontStyle ) FLAG( RehearsalAttributes, FontSize ) FLAG( RehearsalAttributes, FontWeight ) FLAG( RehearsalAttributes, Halign ) FLAG( RehearsalAttributes, Underline ) FLAG( RehearsalAttributes, Overline ) FLAG( RehearsalAttributes, LineThrough ) FLAG( RehearsalAttributes, Rotation ) FLAG( RehearsalAttributes, LetterSpacing ) FLAG( RehearsalAttributes, LineHeight ) FLAG( RehearsalAttributes, Lang ) FLAG( RehearsalAttributes, Space ) FLAG( RehearsalAttributes, Enclosure ) END
CLASS( Root ) ONE( Root, RootStep, RootStep ) OPT( Root, RootAlter, RootAlter ) END
CLASS( ScoreInstrument ) ONE( ScoreInstrument, InstrumentName, InstrumentName ) OPT( ScoreInstrument, InstrumentAbbreviation, InstrumentAbbreviation ) OPT( ScoreInstrument, SoloOrEnsembleChoice, SoloOrEnsembleChoice ) OPT( ScoreInstrument, InstrumentSound, InstrumentSound ) OPT( ScoreInstrument, VirtualInstrument, VirtualInstrument ) ATTRIBUTES( ScoreInstrument, ScoreInstrumentAttributes ) ALWAYS( Id ) END
CLASS( Sign ) END
CLASS( Solo ) END
CLASS( Staff ) END
CLASS( Staves ) END
CLASS( Stress ) ATTRIBUTES( Stress, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( SystemDistance ) END
CLASS( Tenuto ) ATTRIBUTES( Tenuto, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( TimeModificationNormalTypeNormalDot ) ONE( TimeModificationNormalTypeNormalDot, NormalType, NormalType ) SET( TimeModificationNormalTypeNormalDot, NormalDot, NormalDot, 0, -1 ) AT( TimeModificationNormalTypeNormalDot, NormalDot ) END
CLASS( TopSystemDistance ) END
CLASS( TuningOctave ) END
CLASS( Turn ) ATTRIBUTES( Turn, TurnAttributes ) FLAG( TurnAttributes, DefaultX ) FLAG( TurnAttributes, DefaultY ) FLAG( TurnAttributes, RelativeX ) FLAG( TurnAttributes, RelativeY ) FLAG( TurnAttributes, FontFamily ) FLAG( TurnAttributes, FontStyle ) FLAG( TurnAttributes, FontSize ) FLAG( TurnAttributes, FontWeight ) FLAG( TurnAttributes, Placement ) FLAG( TurnAttributes, StartNote ) FLAG( TurnAttributes, TrillStep ) FLAG( TurnAttributes, TwoNoteTurn ) FLAG( TurnAttributes, Accelerate ) FLAG( TurnAttributes, Beats ) FLAG( TurnAttributes, SecondBeat ) FLAG( TurnAttributes, LastBeat ) FLAG( TurnAttributes, Slash ) END
CLASS( VirtualName ) END
CLASS( Words ) ATTRIBUTES( Words, WordsAttributes ) FLAG( WordsAttributes, Justify ) FLAG( WordsAttributes, DefaultX ) FLAG( WordsAttributes, DefaultY ) FLAG( WordsAttributes, RelativeX ) FLAG( WordsAttributes, RelativeY ) FLAG( WordsAttributes, FontFamily ) FLAG( WordsAttributes, FontStyle ) FLAG( WordsAttributes, FontSize ) FLAG( WordsAttributes, FontWeight ) FLAG( WordsAttributes, Halign ) FLAG( WordsAttributes, Underline ) FLAG( WordsAttributes, Overline ) FLAG( WordsAttributes, LineThrough ) FLAG( WordsAttributes, Rotation ) FLAG( WordsAttributes, LetterSpacing ) FLAG( WordsAttributes, LineHeight ) FLAG( WordsAttributes, Lang ) FLAG( WordsAttributes, Space ) FLAG( WordsAttributes, Enclosure ) END
}
}
