// written by tools/gen_c02.py
#include "c02.h"
#include "mx/core/elements/Accidental.h"
#include "mx/core/elements/AccidentalText.h"
#include "mx/core/elements/AccidentalTextAttributes.h"
#include "mx/core/elements/ActualNotes.h"
#include "mx/core/elements/Appearance.h"
#include "mx/core/elements/Artificial.h"
#include "mx/core/elements/BasePitch.h"
#include "mx/core/elements/BassStep.h"
#include "mx/core/elements/BassStepAttributes.h"
#include "mx/core/elements/Beam.h"
#include "mx/core/elements/BeatUnitPer.h"
#include "mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.h"
#include "mx/core/elements/Bracket.h"
#include "mx/core/elements/BracketAttributes.h"
#include "mx/core/elements/Clef.h"
#include "mx/core/elements/ClefAttributes.h"
#include "mx/core/elements/ClefOctaveChange.h"
#include "mx/core/elements/Credit.h"
#include "mx/core/elements/CreditWords.h"
#include "mx/core/elements/CreditWordsAttributes.h"
#include "mx/core/elements/Defaults.h"
#include "mx/core/elements/Degree.h"
#include "mx/core/elements/DegreeAlter.h"
#include "mx/core/elements/DegreeAttributes.h"
#include "mx/core/elements/DegreeType.h"
#include "mx/core/elements/DegreeValue.h"
#include "mx/core/elements/Direction.h"
#include "mx/core/elements/DirectionAttributes.h"
#include "mx/core/elements/DirectionType.h"
#include "mx/core/elements/Distance.h"
#include "mx/core/elements/DistanceAttributes.h"
#include "mx/core/elements/Dot.h"
#include "mx/core/elements/Dynamics.h"
#include "mx/core/elements/DynamicsAttributes.h"
#include "mx/core/elements/EditorialVoiceDirectionGroup.h"
#include "mx/core/elements/EditorialVoiceGroup.h"
#include "mx/core/elements/ElisionSyllabicGroup.h"
#include "mx/core/elements/ElisionSyllabicTextGroup.h"
#include "mx/core/elements/EmptyFontAttributes.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/EmptyPrintObjectStyleAlignAttributes.h"
#include "mx/core/elements/EmptyTrillSoundAttributes.h"
#include "mx/core/elements/Ending.h"
#include "mx/core/elements/EndingAttributes.h"
#include "mx/core/elements/Extend.h"
#include "mx/core/elements/Figure.h"
#include "mx/core/elements/FigureNumber.h"
#include "mx/core/elements/FirstFret.h"
#include "mx/core/elements/Frame.h"
#include "mx/core/elements/FrameAttributes.h"
#include "mx/core/elements/FrameFrets.h"
#include "mx/core/elements/FrameNote.h"
#include "mx/core/elements/FrameStrings.h"
#include "mx/core/elements/Glass.h"
#include "mx/core/elements/GroupName.h"
#include "mx/core/elements/GroupNameAttributes.h"
#include "mx/core/elements/HarmonicInfoChoice.h"
#include "mx/core/elements/HoleShape.h"
#include "mx/core/elements/Identification.h"
#include "mx/core/elements/Instrument.h"
#include "mx/core/elements/InstrumentSound.h"
#include "mx/core/elements/Ipa.h"
#include "mx/core/elements/KeyAccidental.h"
#include "mx/core/elements/KeyAlter.h"
#include "mx/core/elements/KeyStep.h"
#include "mx/core/elements/LeftDivider.h"
#include "mx/core/elements/Line.h"
#include "mx/core/elements/LineWidth.h"
#include "mx/core/elements/Lyric.h"
#include "mx/core/elements/LyricLanguage.h"
#include "mx/core/elements/LyricLanguageAttributes.h"
#include "mx/core/elements/Membrane.h"
#include "mx/core/elements/MetronomeTuplet.h"
#include "mx/core/elements/MetronomeTupletAttributes.h"
#include "mx/core/elements/MidiProgram.h"
#include "mx/core/elements/MovementNumber.h"
#include "mx/core/elements/MovementTitle.h"
#include "mx/core/elements/Mute.h"
#include "mx/core/elements/NonTraditionalKey.h"
#include "mx/core/elements/NormalNotes.h"
#include "mx/core/elements/NormalTypeNormalDotGroup.h"
#include "mx/core/elements/Notations.h"
#include "mx/core/elements/Note.h"
#include "mx/core/elements/NoteAttributes.h"
#include "mx/core/elements/NoteChoice.h"
#include "mx/core/elements/NoteRelationNote.h"
#include "mx/core/elements/NoteSize.h"
#include "mx/core/elements/Notehead.h"
#include "mx/core/elements/NoteheadText.h"
#include "mx/core/elements/OctaveChange.h"
#include "mx/core/elements/Offset.h"
#include "mx/core/elements/OtherAppearance.h"
#include "mx/core/elements/OtherArticulation.h"
#include "mx/core/elements/OtherArticulationAttributes.h"
#include "mx/core/elements/OtherPlay.h"
#include "mx/core/elements/PageHeight.h"
#include "mx/core/elements/PageLayout.h"
#include "mx/core/elements/PageMargins.h"
#include "mx/core/elements/PageWidth.h"
#include "mx/core/elements/PartGroup.h"
#include "mx/core/elements/PartGroupOrScorePart.h"
#include "mx/core/elements/PartList.h"
#include "mx/core/elements/PedalStep.h"
#include "mx/core/elements/Play.h"
#include "mx/core/elements/PlayAttributes.h"
#include "mx/core/elements/Prefix.h"
#include "mx/core/elements/PullOff.h"
#include "mx/core/elements/PullOffAttributes.h"
#include "mx/core/elements/Rights.h"
#include "mx/core/elements/RightsAttributes.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/ScorePart.h"
#include "mx/core/elements/SemiPitched.h"
#include "mx/core/elements/Shake.h"
#include "mx/core/elements/Sign.h"
#include "mx/core/elements/Software.h"
#include "mx/core/elements/Sound.h"
#include "mx/core/elements/SoundingPitch.h"
#include "mx/core/elements/Staccato.h"
#include "mx/core/elements/Staff.h"
#include "mx/core/elements/StaffType.h"
#include "mx/core/elements/Stem.h"
#include "mx/core/elements/Stopped.h"
#include "mx/core/elements/Suffix.h"
#include "mx/core/elements/Syllabic.h"
#include "mx/core/elements/SyllabicTextGroup.h"
#include "mx/core/elements/Tenths.h"
#include "mx/core/elements/Text.h"
#include "mx/core/elements/TimeModification.h"
#include "mx/core/elements/TimeModificationNormalTypeNormalDot.h"
#include "mx/core/elements/TopMargin.h"
#include "mx/core/elements/TouchingPitch.h"
#include "mx/core/elements/TuningAlter.h"
#include "mx/core/elements/TupletType.h"
#include "mx/core/elements/TupletTypeAttributes.h"
#include "mx/core/elements/Type.h"
#include "mx/core/elements/VirtualLibrary.h"
#include "mx/core/elements/WordFont.h"
#include "mx/core/elements/Work.h"
using namespace mx::core;
namespace c02
{
void table3( std::vector<Class>& v )
{
CLASS( AccidentalText ) ATTRIBUTES( AccidentalText, AccidentalTextAttributes ) FLAG( AccidentalTextAttributes, Justify ) FLAG( AccidentalTextAttributes, DefaultX ) FLAG( AccidentalTextAttributes, DefaultY ) FLAG( AccidentalTextAttributes, RelativeX ) FLAG( AccidentalTextAttributes, RelativeY ) FLAG( AccidentalTextAttributes, FontFamily ) FLAG( AccidentalTextAttributes, FontStyle ) FLAG( AccidentalTextAttributes, FontSize ) FLAG( AccidentalTextAttributes, FontWeight ) FLAG( AccidentalTextAttributes, Halign ) FLAG( AccidentalTextAttributes, Underline ) FLAG( AccidentalTextAttributes, Overline ) FLAG( AccidentalTextAttributes, LineThrough ) FLAG( AccidentalTextAttributes, Rotation ) FLAG( AccidentalTextAttributes, LetterSpacing ) FLAG( AccidentalTextAttributes, LineHeight ) FLAG( AccidentalTextAttributes, Lang ) FLAG( AccidentalTextAttributes, Space ) FLAG( AccidentalTextAttributes, Enclosure ) END
CLASS( Appearance ) SET( Appearance, LineWidth, LineWidth, 0, -1 ) AT( Appearance, LineWidth ) SET( Appearance, NoteSize, NoteSize, 0, -1 ) AT( Appearance, NoteSize ) SET( Appearance, Distance, Distance, 0, -1 ) AT( Appearance, Distance ) SET( Appearance, OtherAppearance, OtherAppearance, 0, -1 ) AT( Appearance, OtherAppearance ) END
CLASS( Artificial ) END
CLASS( BassStep ) ATTRIBUTES( BassStep, BassStepAttributes ) FLAG( BassStepAttributes, Text ) FLAG( BassStepAttributes, DefaultX ) FLAG( BassStepAttributes, DefaultY ) FLAG( BassStepAttributes, RelativeX ) FLAG( BassStepAttributes, RelativeY ) FLAG( BassStepAttributes, FontFamily ) FLAG( BassStepAttributes, FontStyle ) FLAG( BassStepAttributes, FontSize ) FLAG( BassStepAttributes, FontWeight ) END
CLASS( BeatUnitPerOrNoteRelationNoteChoice ) ONE( BeatUnitPerOrNoteRelationNoteChoice, BeatUnitPer, BeatUnitPer ) ONE( BeatUnitPerOrNoteRelationNoteChoice, NoteRelationNote, NoteRelationNote ) CHOICE( BeatUnitPerOrNoteRelationNoteChoice, BeatUnitPerOrNoteRelationNoteChoice::Choice ) PICK( BeatUnitPerOrNoteRelationNoteChoice::Choice, beatUnitPer ) PICK( BeatUnitPerOrNoteRelationNoteChoice::Choice, noteRelationNote ) END
CLASS( Bracket ) ATTRIBUTES( Bracket, BracketAttributes ) ALWAYS( Type ) FLAG( BracketAttributes, Number ) ALWAYS( LineEnd ) FLAG( BracketAttributes, EndLength ) FLAG( BracketAttributes, LineType ) FLAG( BracketAttributes, DashLength ) FLAG( BracketAttributes, SpaceLength ) FLAG( BracketAttributes, DefaultX ) FLAG( BracketAttributes, DefaultY ) FLAG( BracketAttributes, RelativeX ) FLAG( BracketAttributes, RelativeY ) FLAG( BracketAttributes, Color ) END
CLASS( Clef ) ONE( Clef, Sign, Sign ) OPT( Clef, Line, Line ) OPT( Clef, ClefOctaveChange, ClefOctaveChange ) ATTRIBUTES( Clef, ClefAttributes ) FLAG( ClefAttributes, Number ) FLAG( ClefAttributes, Additional ) FLAG( ClefAttributes, Size ) FLAG( ClefAttributes, AfterBarline ) FLAG( ClefAttributes, DefaultX ) FLAG( ClefAttributes, DefaultY ) FLAG( ClefAttributes, RelativeX ) FLAG( ClefAttributes, RelativeY ) FLAG( ClefAttributes, FontFamily ) FLAG( ClefAttributes, FontStyle ) FLAG( ClefAttributes, FontSize ) FLAG( ClefAttributes, FontWeight ) FLAG( ClefAttributes, Color ) FLAG( ClefAttributes, PrintObject ) END
CLASS( CreditWords ) ATTRIBUTES( CreditWords, CreditWordsAttributes ) FLAG( CreditWordsAttributes, Justify ) FLAG( CreditWordsAttributes, DefaultX ) FLAG( CreditWordsAttributes, DefaultY ) FLAG( CreditWordsAttributes, RelativeX ) FLAG( CreditWordsAttributes, RelativeY ) FLAG( CreditWordsAttributes, FontFamily ) FLAG( CreditWordsAttributes, FontStyle ) FLAG( CreditWordsAttributes, FontSize ) FLAG( CreditWordsAttributes, FontWeight ) FLAG( CreditWordsAttributes, Color ) FLAG( CreditWordsAttributes, Halign ) FLAG( CreditWordsAttributes, Valign ) FLAG( CreditWordsAttributes, Underline ) FLAG( CreditWordsAttributes, Overline ) FLAG( CreditWordsAttributes, LineThrough ) FLAG( CreditWordsAttributes, Rotation ) FLAG( CreditWordsAttributes, LetterSpacing ) FLAG( CreditWordsAttributes, LineHeight ) FLAG( CreditWordsAttributes, Lang ) FLAG( CreditWordsAttributes, Space ) FLAG( CreditWordsAttributes, Enclosure ) END
CLASS( Degree ) ONE( Degree, DegreeValue, DegreeValue ) ONE( Degree, DegreeAlter, DegreeAlter ) ONE( Degree, DegreeType, DegreeType ) ATTRIBUTES( Degree, DegreeAttributes ) FLAG( DegreeAttributes, PrintObject ) END
CLASS( Direction ) OPT( Direction, Offset, Offset ) ONE( Direction, EditorialVoiceDirectionGroup, EditorialVoiceDirectionGroup ) OPT( Direction, Staff, Staff ) OPT( Direction, Sound, Sound ) SET( Direction, DirectionType, DirectionType, 1, -1 ) AT( Direction, DirectionType ) ATTRIBUTES( Direction, DirectionAttributes ) FLAG( DirectionAttributes, Placement ) FLAG( DirectionAttributes, Directive ) END
CLASS( Distance ) ATTRIBUTES( Distance, DistanceAttributes ) ALWAYS( Type ) END
CLASS( Dynamics ) OWNATTRIBUTES( Dynamics, DynamicsAttributes ) FLAG( DynamicsAttributes, DefaultX ) FLAG( DynamicsAttributes, DefaultY ) FLAG( DynamicsAttributes, RelativeX ) FLAG( DynamicsAttributes, RelativeY ) FLAG( DynamicsAttributes, FontFamily ) FLAG( DynamicsAttributes, FontStyle ) FLAG( DynamicsAttributes, FontSize ) FLAG( DynamicsAttributes, FontWeight ) FLAG( DynamicsAttributes, Color ) FLAG( DynamicsAttributes, Halign ) FLAG( DynamicsAttributes, Valign ) FLAG( DynamicsAttributes, Placement ) FLAG( DynamicsAttributes, Underline ) FLAG( DynamicsAttributes, Overline ) FLAG( DynamicsAttributes, LineThrough ) FLAG( DynamicsAttributes, Enclosure ) END
CLASS( ElisionSyllabicTextGroup ) OPT( ElisionSyllabicTextGroup, ElisionSyllabicGroup, ElisionSyllabicGroup ) ONE( ElisionSyllabicTextGroup, Text, Text ) END
CLASS( Ending ) ATTRIBUTES( Ending, EndingAttributes ) ALWAYS( Number ) ALWAYS( Type ) FLAG( EndingAttributes, PrintObject ) FLAG( EndingAttributes, DefaultX ) FLAG( EndingAttributes, DefaultY ) FLAG( EndingAttributes, RelativeX ) FLAG( EndingAttributes, RelativeY ) FLAG( EndingAttributes, FontFamily ) FLAG( EndingAttributes, FontStyle ) FLAG( EndingAttributes, FontSize ) FLAG( EndingAttributes, FontWeight ) FLAG( EndingAttributes, EndLength ) FLAG( EndingAttributes, TextX ) FLAG( EndingAttributes, TextY ) END
CLASS( Figure ) OPT( Figure, Prefix, Prefix ) OPT( Figure, FigureNumber, FigureNumber ) OPT( Figure, Suffix, Suffix ) OPT( Figure, Extend, Extend ) END
CLASS( Frame ) ONE( Frame, FrameStrings, FrameStrings ) ONE( Frame, FrameFrets, FrameFrets ) OPT( Frame, FirstFret, FirstFret ) SET( Frame, FrameNote, FrameNote, 1, -1 ) AT( Frame, FrameNote ) ATTRIBUTES( Frame, FrameAttributes ) FLAG( FrameAttributes, DefaultX ) FLAG( FrameAttributes, DefaultY ) FLAG( FrameAttributes, RelativeX ) FLAG( FrameAttributes, RelativeY ) FLAG( FrameAttributes, Color ) FLAG( FrameAttributes, Halign ) FLAG( FrameAttributes, Valign ) FLAG( FrameAttributes, Height ) FLAG( FrameAttributes, Width ) FLAG( FrameAttributes, Unplayed ) END
CLASS( Glass ) END
CLASS( GroupName ) ATTRIBUTES( GroupName, GroupNameAttributes ) FLAG( GroupNameAttributes, DefaultX ) FLAG( GroupNameAttributes, DefaultY ) FLAG( GroupNameAttributes, RelativeX ) FLAG( GroupNameAttributes, RelativeY ) FLAG( GroupNameAttributes, FontFamily ) FLAG( GroupNameAttributes, FontStyle ) FLAG( GroupNameAttributes, FontSize ) FLAG( GroupNameAttributes, FontWeight ) FLAG( GroupNameAttributes, Justify ) END
CLASS( HarmonicInfoChoice ) ONE( HarmonicInfoChoice, BasePitch, BasePitch ) ONE( HarmonicInfoChoice, TouchingPitch, TouchingPitch ) ONE( HarmonicInfoChoice, SoundingPitch, SoundingPitch ) CHOICE( HarmonicInfoChoice, HarmonicInfoChoice::Choice ) PICK( HarmonicInfoChoice::Choice, basePitch ) PICK( HarmonicInfoChoice::Choice, touchingPitch ) PICK( HarmonicInfoChoice::Choice, soundingPitch ) END
CLASS( HoleShape ) END
CLASS( InstrumentSound ) END
CLASS( KeyAccidental ) END
CLASS( LeftDivider ) ATTRIBUTES( LeftDivider, EmptyPrintObjectStyleAlignAttributes ) FLAG( EmptyPrintObjectStyleAlignAttributes, PrintObject ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultX ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultY ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeX ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeY ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontFamily ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontStyle ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontSize ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontWeight ) FLAG( EmptyPrintObjectStyleAlignAttributes, Color ) FLAG( EmptyPrintObjectStyleAlignAttributes, Halign ) FLAG( EmptyPrintObjectStyleAlignAttributes, Valign ) END
CLASS( LyricLanguage ) ATTRIBUTES( LyricLanguage, LyricLanguageAttributes ) FLAG( LyricLanguageAttributes, Number ) FLAG( LyricLanguageAttributes, Name ) ALWAYS( Lang ) END
CLASS( Membrane ) END
CLASS( MetronomeTuplet ) ONE( MetronomeTuplet, ActualNotes, ActualNotes ) ONE( MetronomeTuplet, NormalNotes, NormalNotes ) OPT( MetronomeTuplet, TimeModificationNormalTypeNormalDot, TimeModificationNormalTypeNormalDot ) ATTRIBUTES( MetronomeTuplet, MetronomeTupletAttributes ) ALWAYS( Type ) FLAG( MetronomeTupletAttributes, Bracket ) FLAG( MetronomeTupletAttributes, ShowNumber ) END
CLASS( MidiProgram ) END
CLASS( MovementTitle ) END
CLASS( NonTraditionalKey ) ONE( NonTraditionalKey, KeyStep, KeyStep ) ONE( NonTraditionalKey, KeyAlter, KeyAlter ) OPT( NonTraditionalKey, KeyAccidental, KeyAccidental ) END
CLASS( Note ) ONE( Note, NoteChoice, NoteChoice ) OPT( Note, Instrument, Instrument ) ONE( Note, EditorialVoiceGroup, EditorialVoiceGroup ) OPT( Note, Type, Type ) OPT( Note, Accidental, Accidental ) OPT( Note, TimeModification, TimeModification ) OPT( Note, Stem, Stem ) OPT( Note, Notehead, Notehead ) OPT( Note, NoteheadText, NoteheadText ) OPT( Note, Staff, Staff ) OPT( Note, Play, Play ) SET( Note, Dot, Dot, 0, -1 ) AT( Note, Dot ) SET( Note, Beam, Beam, 0, 8 ) AT( Note, Beam ) SET( Note, Notations, Notations, 0, -1 ) AT( Note, Notations ) SET( Note, Lyric, Lyric, 0, -1 ) AT( Note, Lyric ) ATTRIBUTES( Note, NoteAttributes ) FLAG( NoteAttributes, DefaultX ) FLAG( NoteAttributes, DefaultY ) FLAG( NoteAttributes, RelativeX ) FLAG( NoteAttributes, RelativeY ) FLAG( NoteAttributes, FontFamily ) FLAG( NoteAttributes, FontStyle ) FLAG( NoteAttributes, FontSize ) FLAG( NoteAttributes, FontWeight ) FLAG( NoteAttributes, Color ) FLAG( NoteAttributes, PrintObject ) FLAG( NoteAttributes, PrintDot ) FLAG( NoteAttributes, PrintSpacing ) FLAG( NoteAttributes, PrintLyric ) FLAG( NoteAttributes, Dynamics ) FLAG( NoteAttributes, EndDynamics ) FLAG( NoteAttributes, Attack ) FLAG( NoteAttributes, Release ) FLAG( NoteAttributes, TimeOnly ) FLAG( NoteAttributes, Pizzicato ) END
CLASS( OctaveChange ) END
CLASS( OtherArticulation ) ATTRIBUTES( OtherArticulation, OtherArticulationAttributes ) FLAG( OtherArticulationAttributes, DefaultX ) FLAG( OtherArticulationAttributes, DefaultY ) FLAG( OtherArticulationAttributes, RelativeX ) FLAG( OtherArticulationAttributes, RelativeY ) FLAG( OtherArticulationAttributes, FontFamily ) FLAG( OtherArticulationAttributes, FontStyle ) FLAG( OtherArticulationAttributes, FontSize ) FLAG( OtherArticulationAttributes, FontWeight ) FLAG( OtherArticulationAttributes, Placement ) END
CLASS( PageLayout ) ONE( PageLayout, PageHeight, PageHeight ) ONE( PageLayout, PageWidth, PageWidth ) SET( PageLayout, PageMargins, PageMargins, 0, 2 ) AT( PageLayout, PageMargins ) END
CLASS( PartList ) ONE( PartList, ScorePart, ScorePart ) SET( PartList, PartGroup, PartGroup, 0, -1 ) AT( PartList, PartGroup ) SET( PartList, PartGroupOrScorePart, PartGroupOrScorePart, 0, -1 ) AT( PartList, PartGroupOrScorePart ) END
CLASS( PedalStep ) END
CLASS( Play ) ONE( Play, Ipa, Ipa ) ONE( Play, Mute, Mute ) ONE( Play, SemiPitched, SemiPitched ) ONE( Play, OtherPlay, OtherPlay ) CHOICE( Play, Play::Choice ) PICK( Play::Choice, ipa ) PICK( Play::Choice, mute ) PICK( Play::Choice, semiPitched ) PICK( Play::Choice, otherPlay ) ATTRIBUTES( Play, PlayAttributes ) FLAG( PlayAttributes, Id ) END
CLASS( PullOff ) ATTRIBUTES( PullOff, PullOffAttributes ) ALWAYS( Type ) FLAG( PullOffAttributes, Number ) FLAG( PullOffAttributes, DefaultX ) FLAG( PullOffAttributes, DefaultY ) FLAG( PullOffAttributes, RelativeX ) FLAG( PullOffAttributes, RelativeY ) FLAG( PullOffAttributes, FontFamily ) FLAG( PullOffAttributes, FontStyle ) FLAG( PullOffAttributes, FontSize ) FLAG( PullOffAttributes, FontWeight ) FLAG( PullOffAttributes, Placement ) END
CLASS( Rights ) ATTRIBUTES( Rights, RightsAttributes ) FLAG( RightsAttributes, Type ) END
CLASS( ScoreHeaderGroup ) OPT( ScoreHeaderGroup, Work, Work ) OPT( ScoreHeaderGroup, MovementNumber, MovementNumber ) OPT( ScoreHeaderGroup, MovementTitle, MovementTitle ) OPT( ScoreHeaderGroup, Identification, Identification ) OPT( ScoreHeaderGroup, Defaults, Defaults ) ONE( ScoreHeaderGroup, PartList, PartList ) SET( ScoreHeaderGroup, Credit, Credit, 0, -1 ) AT( ScoreHeaderGroup, Credit ) END
CLASS( Shake ) ATTRIBUTES( Shake, EmptyTrillSoundAttributes ) FLAG( EmptyTrillSoundAttributes, DefaultX ) FLAG( EmptyTrillSoundAttributes, DefaultY ) FLAG( EmptyTrillSoundAttributes, RelativeX ) FLAG( EmptyTrillSoundAttributes, RelativeY ) FLAG( EmptyTrillSoundAttributes, FontFamily ) FLAG( EmptyTrillSoundAttributes, FontStyle ) FLAG( EmptyTrillSoundAttributes, FontSize ) FLAG( EmptyTrillSoundAttributes, FontWeight ) FLAG( EmptyTrillSoundAttributes, Placement ) FLAG( EmptyTrillSoundAttributes, StartNote ) FLAG( EmptyTrillSoundAttributes, TrillStep ) FLAG( EmptyTrillSoundAttributes, TwoNoteTurn ) FLAG( EmptyTrillSoundAttributes, Accelerate ) FLAG( EmptyTrillSoundAttributes, Beats ) FLAG( EmptyTrillSoundAttributes, SecondBeat ) FLAG( EmptyTrillSoundAttributes, LastBeat ) END
CLASS( Software ) END
CLASS( Staccato ) ATTRIBUTES( Staccato, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( StaffType ) END
CLASS( Stopped ) ATTRIBUTES( Stopped, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( SyllabicTextGroup ) OPT( SyllabicTextGroup, Syllabic, Syllabic ) ONE( SyllabicTextGroup, Text, Text ) OPT( SyllabicTextGroup, Extend, Extend ) SET( SyllabicTextGroup, ElisionSyllabicTextGroup, ElisionSyllabicTextGroup, 0, -1 ) AT( SyllabicTextGroup, ElisionSyllabicTextGroup ) END
CLASS( Tenths ) END
CLASS( TimeModification ) ONE( TimeModification, ActualNotes, ActualNotes ) ONE( TimeModification, NormalNotes, NormalNotes ) OPT( TimeModification, NormalTypeNormalDotGroup, NormalTypeNormalDotGroup ) END
CLASS( TopMargin ) END
CLASS( TuningAlter ) END
CLASS( TupletType ) ATTRIBUTES( TupletType, TupletTypeAttributes ) FLAG( TupletTypeAttributes, FontFamily ) FLAG( TupletTypeAttributes, FontStyle ) FLAG( TupletTypeAttributes, FontSize ) FLAG( TupletTypeAttributes, FontWeight ) END
CLASS( VirtualLibrary ) END
CLASS( WordFont ) ATTRIBUTES( WordFont, EmptyFontAttributes ) FLAG( EmptyFontAttributes, FontFamily ) FLAG( EmptyFontAttributes, FontStyle ) FLAG( EmptyFontAttributes, FontSize ) FLAG( EmptyFontAttributes, FontWeight ) END
}
}
