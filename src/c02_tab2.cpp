// written by tools/gen_c02.py
#include "c02.h"
#include "mx/core/elements/Accent.h"
#include "mx/core/elements/AccidentalMark.h"
#include "mx/core/elements/AccidentalMarkAttributes.h"
#include "mx/core/elements/AccidentalText.h"
#include "mx/core/elements/Accord.h"
#include "mx/core/elements/Alter.h"
#include "mx/core/elements/Appearance.h"
#include "mx/core/elements/Arpeggiate.h"
#include "mx/core/elements/Arrow.h"
#include "mx/core/elements/Articulations.h"
#include "mx/core/elements/ArticulationsChoice.h"
#include "mx/core/elements/BassAlter.h"
#include "mx/core/elements/BassAlterAttributes.h"
#include "mx/core/elements/BeatRepeat.h"
#include "mx/core/elements/BeatUnitGroup.h"
#include "mx/core/elements/BeatUnitPer.h"
#include "mx/core/elements/Bend.h"
#include "mx/core/elements/BottomMargin.h"
#include "mx/core/elements/BreathMark.h"
#include "mx/core/elements/Caesura.h"
#include "mx/core/elements/CircularArrow.h"
#include "mx/core/elements/Clef.h"
#include "mx/core/elements/CreditType.h"
#include "mx/core/elements/Defaults.h"
#include "mx/core/elements/DetachedLegato.h"
#include "mx/core/elements/Diatonic.h"
#include "mx/core/elements/Directive.h"
#include "mx/core/elements/DisplayText.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/Divisions.h"
#include "mx/core/elements/Doit.h"
#include "mx/core/elements/DoubleTongue.h"
#include "mx/core/elements/DownBow.h"
#include "mx/core/elements/Duration.h"
#include "mx/core/elements/Dynamics.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/EditorialVoiceGroup.h"
#include "mx/core/elements/Elision.h"
#include "mx/core/elements/ElisionSyllabicGroup.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/elements/EndParagraph.h"
#include "mx/core/elements/Falloff.h"
#include "mx/core/elements/Fermata.h"
#include "mx/core/elements/Fifths.h"
#include "mx/core/elements/Fingering.h"
#include "mx/core/elements/Fingernails.h"
#include "mx/core/elements/Forward.h"
#include "mx/core/elements/Fret.h"
#include "mx/core/elements/Function.h"
#include "mx/core/elements/FunctionAttributes.h"
#include "mx/core/elements/Glissando.h"
#include "mx/core/elements/GroupBarline.h"
#include "mx/core/elements/GroupBarlineAttributes.h"
#include "mx/core/elements/HammerOn.h"
#include "mx/core/elements/Handbell.h"
#include "mx/core/elements/Harmonic.h"
#include "mx/core/elements/HarmonicAttributes.h"
#include "mx/core/elements/HarmonicInfoChoice.h"
#include "mx/core/elements/HarmonicTypeChoice.h"
#include "mx/core/elements/Heel.h"
#include "mx/core/elements/Hole.h"
#include "mx/core/elements/HoleClosed.h"
#include "mx/core/elements/HoleClosedAttributes.h"
#include "mx/core/elements/InstrumentName.h"
#include "mx/core/elements/Instruments.h"
#include "mx/core/elements/Key.h"
#include "mx/core/elements/KeyAttributes.h"
#include "mx/core/elements/KeyChoice.h"
#include "mx/core/elements/KeyOctave.h"
#include "mx/core/elements/LayoutGroup.h"
#include "mx/core/elements/LyricFont.h"
#include "mx/core/elements/LyricFontAttributes.h"
#include "mx/core/elements/LyricLanguage.h"
#include "mx/core/elements/MeasureRepeat.h"
#include "mx/core/elements/MeasureStyle.h"
#include "mx/core/elements/MeasureStyleChoice.h"
#include "mx/core/elements/MetronomeNote.h"
#include "mx/core/elements/MetronomeRelation.h"
#include "mx/core/elements/MetronomeRelationGroup.h"
#include "mx/core/elements/MidiName.h"
#include "mx/core/elements/MovementNumber.h"
#include "mx/core/elements/MultipleRest.h"
#include "mx/core/elements/MusicFont.h"
#include "mx/core/elements/NonArpeggiate.h"
#include "mx/core/elements/NonArpeggiateAttributes.h"
#include "mx/core/elements/NotationsChoice.h"
#include "mx/core/elements/Octave.h"
#include "mx/core/elements/OpenString.h"
#include "mx/core/elements/Ornaments.h"
#include "mx/core/elements/OtherAppearance.h"
#include "mx/core/elements/OtherAppearanceAttributes.h"
#include "mx/core/elements/OtherArticulation.h"
#include "mx/core/elements/OtherNotation.h"
#include "mx/core/elements/OtherTechnical.h"
#include "mx/core/elements/PageHeight.h"
#include "mx/core/elements/PageLayout.h"
#include "mx/core/elements/PartGroup.h"
#include "mx/core/elements/PartGroupOrScorePart.h"
#include "mx/core/elements/PartSymbol.h"
#include "mx/core/elements/PedalAlter.h"
#include "mx/core/elements/PerMinuteOrBeatUnitChoice.h"
#include "mx/core/elements/Pitched.h"
#include "mx/core/elements/Plop.h"
#include "mx/core/elements/Pluck.h"
#include "mx/core/elements/Properties.h"
#include "mx/core/elements/PullOff.h"
#include "mx/core/elements/RightMargin.h"
#include "mx/core/elements/Scaling.h"
#include "mx/core/elements/Scoop.h"
#include "mx/core/elements/Scordatura.h"
#include "mx/core/elements/ScorePart.h"
#include "mx/core/elements/SenzaMisura.h"
#include "mx/core/elements/Slash.h"
#include "mx/core/elements/Slide.h"
#include "mx/core/elements/Slur.h"
#include "mx/core/elements/SnapPizzicato.h"
#include "mx/core/elements/Spiccato.h"
#include "mx/core/elements/Staccatissimo.h"
#include "mx/core/elements/Staccato.h"
#include "mx/core/elements/Staff.h"
#include "mx/core/elements/StaffDetails.h"
#include "mx/core/elements/StaffLayout.h"
#include "mx/core/elements/StaffTuning.h"
#include "mx/core/elements/StaffTuningAttributes.h"
#include "mx/core/elements/Staves.h"
#include "mx/core/elements/StickType.h"
#include "mx/core/elements/Stopped.h"
#include "mx/core/elements/Stress.h"
#include "mx/core/elements/String.h"
#include "mx/core/elements/StrongAccent.h"
#include "mx/core/elements/Syllabic.h"
#include "mx/core/elements/SystemLayout.h"
#include "mx/core/elements/Tap.h"
#include "mx/core/elements/Technical.h"
#include "mx/core/elements/TechnicalChoice.h"
#include "mx/core/elements/Tenuto.h"
#include "mx/core/elements/ThumbPosition.h"
#include "mx/core/elements/Tied.h"
#include "mx/core/elements/Time.h"
#include "mx/core/elements/TimeChoice.h"
#include "mx/core/elements/TimeSignatureGroup.h"
#include "mx/core/elements/Toe.h"
#include "mx/core/elements/ToeAttributes.h"
#include "mx/core/elements/Transpose.h"
#include "mx/core/elements/TripleTongue.h"
#include "mx/core/elements/TuningAlter.h"
#include "mx/core/elements/TuningOctave.h"
#include "mx/core/elements/TuningStep.h"
#include "mx/core/elements/Tuplet.h"
#include "mx/core/elements/TupletNumber.h"
#include "mx/core/elements/TupletNumberAttributes.h"
#include "mx/core/elements/Unstress.h"
#include "mx/core/elements/UpBow.h"
#include "mx/core/elements/VirtualInstrument.h"
#include "mx/core/elements/VirtualLibrary.h"
#include "mx/core/elements/VirtualName.h"
#include "mx/core/elements/Wood.h"
#include "mx/core/elements/WordFont.h"
using namespace mx::core;
namespace c02
{
void table2( std::vector<Class>& v )
{
CLASS( AccidentalMark ) ATTRIBUTES( AccidentalMark, AccidentalMarkAttributes ) FLAG( AccidentalMarkAttributes, DefaultX ) FLAG( AccidentalMarkAttributes, DefaultY ) FLAG( AccidentalMarkAttributes, RelativeX ) FLAG( AccidentalMarkAttributes, RelativeY ) FLAG( AccidentalMarkAttributes, FontFamily ) FLAG( AccidentalMarkAttributes, FontStyle ) FLAG( AccidentalMarkAttributes, FontSize ) FLAG( AccidentalMarkAttributes, FontWeight ) FLAG( AccidentalMarkAttributes, Placement ) END
CLASS( Alter ) END
CLASS( ArticulationsChoice ) ONE( ArticulationsChoice, Accent, Accent ) ONE( ArticulationsChoice, StrongAccent, StrongAccent ) ONE( ArticulationsChoice, Staccato, Staccato ) ONE( ArticulationsChoice, Tenuto, Tenuto ) ONE( ArticulationsChoice, DetachedLegato, DetachedLegato ) ONE( ArticulationsChoice, Staccatissimo, Staccatissimo ) ONE( ArticulationsChoice, Spiccato, Spiccato ) ONE( ArticulationsChoice, Scoop, Scoop ) ONE( ArticulationsChoice, Plop, Plop ) ONE( ArticulationsChoice, Doit, Doit ) ONE( ArticulationsChoice, Falloff, Falloff ) ONE( ArticulationsChoice, BreathMark, BreathMark ) ONE( ArticulationsChoice, Caesura, Caesura ) ONE( ArticulationsChoice, Stress, Stress ) ONE( ArticulationsChoice, Unstress, Unstress ) ONE( ArticulationsChoice, OtherArticulation, OtherArticulation ) CHOICE( ArticulationsChoice, ArticulationsChoice::Choice ) PICK( ArticulationsChoice::Choice, accent ) PICK( ArticulationsChoice::Choice, strongAccent ) PICK( ArticulationsChoice::Choice, staccato ) PICK( ArticulationsChoice::Choice, tenuto ) PICK( ArticulationsChoice::Choice, detachedLegato ) PICK( ArticulationsChoice::Choice, staccatissimo ) PICK( ArticulationsChoice::Choice, spiccato ) PICK( ArticulationsChoice::Choice, scoop ) PICK( ArticulationsChoice::Choice, plop ) PICK( ArticulationsChoice::Choice, doit ) PICK( ArticulationsChoice::Choice, falloff ) PICK( ArticulationsChoice::Choice, breathMark ) PICK( ArticulationsChoice::Choice, caesura ) PICK( ArticulationsChoice::Choice, stress ) PICK( ArticulationsChoice::Choice, unstress ) PICK( ArticulationsChoice::Choice, otherArticulation ) END
CLASS( BassAlter ) ATTRIBUTES( BassAlter, BassAlterAttributes ) FLAG( BassAlterAttributes, PrintObject ) FLAG( BassAlterAttributes, DefaultX ) FLAG( BassAlterAttributes, DefaultY ) FLAG( BassAlterAttributes, RelativeX ) FLAG( BassAlterAttributes, RelativeY ) FLAG( BassAlterAttributes, FontFamily ) FLAG( BassAlterAttributes, FontStyle ) FLAG( BassAlterAttributes, FontSize ) FLAG( BassAlterAttributes, FontWeight ) FLAG( BassAlterAttributes, Location ) END
CLASS( BeatUnitPer ) ONE( BeatUnitPer, BeatUnitGroup, BeatUnitGroup ) ONE_( BeatUnitPer, PerMinuteOrBeatUnitChoice, PerMinuteOrBeatUnitChoice, setPerMinuteOtBeatUnitChoice ) END
CLASS( BottomMargin ) END
CLASS( CircularArrow ) END
CLASS( CreditType ) END
CLASS( Defaults ) OPT( Defaults, Scaling, Scaling ) ONE( Defaults, LayoutGroup, LayoutGroup ) OPT( Defaults, Appearance, Appearance ) OPT( Defaults, MusicFont, MusicFont ) OPT( Defaults, WordFont, WordFont ) SET( Defaults, LyricFont, LyricFont, 0, -1 ) AT( Defaults, LyricFont ) SET( Defaults, LyricLanguage, LyricLanguage, 0, -1 ) AT( Defaults, LyricLanguage ) END
CLASS( Diatonic ) END
CLASS( DisplayTextOrAccidentalText ) ONE( DisplayTextOrAccidentalText, DisplayText, DisplayText ) ONE( DisplayTextOrAccidentalText, AccidentalText, AccidentalText ) CHOICE( DisplayTextOrAccidentalText, DisplayTextOrAccidentalText::Choice ) PICK( DisplayTextOrAccidentalText::Choice, displayText ) PICK( DisplayTextOrAccidentalText::Choice, accidentalText ) END
CLASS( Duration ) END
CLASS( ElisionSyllabicGroup ) ONE( ElisionSyllabicGroup, Elision, Elision ) OPT( ElisionSyllabicGroup, Syllabic, Syllabic ) END
CLASS( EndParagraph ) END
CLASS( Fifths ) END
CLASS( Forward ) ONE( Forward, Duration, Duration ) ONE( Forward, EditorialVoiceGroup, EditorialVoiceGroup ) OPT( Forward, Staff, Staff ) END
CLASS( Function ) ATTRIBUTES( Function, FunctionAttributes ) FLAG( FunctionAttributes, DefaultX ) FLAG( FunctionAttributes, DefaultY ) FLAG( FunctionAttributes, RelativeX ) FLAG( FunctionAttributes, RelativeY ) FLAG( FunctionAttributes, FontFamily ) FLAG( FunctionAttributes, FontStyle ) FLAG( FunctionAttributes, FontSize ) FLAG( FunctionAttributes, FontWeight ) END
CLASS( GroupBarline ) ATTRIBUTES( GroupBarline, GroupBarlineAttributes ) FLAG( GroupBarlineAttributes, Color ) END
CLASS( Harmonic ) OPT( Harmonic, HarmonicTypeChoice, HarmonicTypeChoice ) OPT( Harmonic, HarmonicInfoChoice, HarmonicInfoChoice ) ATTRIBUTES( Harmonic, HarmonicAttributes ) FLAG( HarmonicAttributes, PrintObject ) FLAG( HarmonicAttributes, DefaultX ) FLAG( HarmonicAttributes, DefaultY ) FLAG( HarmonicAttributes, RelativeX ) FLAG( HarmonicAttributes, RelativeY ) FLAG( HarmonicAttributes, FontFamily ) FLAG( HarmonicAttributes, FontStyle ) FLAG( HarmonicAttributes, FontSize ) FLAG( HarmonicAttributes, FontWeight ) FLAG( HarmonicAttributes, Color ) FLAG( HarmonicAttributes, Placement ) END
CLASS( HoleClosed ) ATTRIBUTES( HoleClosed, HoleClosedAttributes ) FLAG( HoleClosedAttributes, Location ) END
CLASS( InstrumentName ) END
CLASS( Key ) ONE( Key, KeyChoice, KeyChoice ) SET( Key, KeyOctave, KeyOctave, 0, -1 ) ATTRIBUTES( Key, KeyAttributes ) FLAG( KeyAttributes, Number ) FLAG( KeyAttributes, DefaultX ) FLAG( KeyAttributes, DefaultY ) FLAG( KeyAttributes, RelativeX ) FLAG( KeyAttributes, RelativeY ) FLAG( KeyAttributes, FontFamily ) FLAG( KeyAttributes, FontStyle ) FLAG( KeyAttributes, FontSize ) FLAG( KeyAttributes, FontWeight ) FLAG( KeyAttributes, Color ) FLAG( KeyAttributes, PrintObject ) END
CLASS( LayoutGroup ) OPT( LayoutGroup, PageLayout, PageLayout ) OPT( LayoutGroup, SystemLayout, SystemLayout ) SET( LayoutGroup, StaffLayout, StaffLayout, 0, -1 ) AT( LayoutGroup, StaffLayout ) END
CLASS( LyricFont ) ATTRIBUTES( LyricFont, LyricFontAttributes ) FLAG( LyricFontAttributes, Number ) FLAG( LyricFontAttributes, Name ) FLAG( LyricFontAttributes, FontFamily ) FLAG( LyricFontAttributes, FontStyle ) FLAG( LyricFontAttributes, FontSize ) FLAG( LyricFontAttributes, FontWeight ) END
CLASS( MeasureStyleChoice ) ONE( MeasureStyleChoice, MultipleRest, MultipleRest ) ONE( MeasureStyleChoice, MeasureRepeat, MeasureRepeat ) ONE( MeasureStyleChoice, BeatRepeat, BeatRepeat ) ONE( MeasureStyleChoice, Slash, Slash ) CHOICE( MeasureStyleChoice, MeasureStyleChoice::Choice ) PICK( MeasureStyleChoice::Choice, multipleRest ) PICK( MeasureStyleChoice::Choice, measureRepeat ) PICK( MeasureStyleChoice::Choice, beatRepeat ) PICK( MeasureStyleChoice::Choice, slash ) END
CLASS( MetronomeRelationGroup ) ONE( MetronomeRelationGroup, MetronomeRelation, MetronomeRelation ) ONE( MetronomeRelationGroup, MetronomeNote, MetronomeNote ) END
CLASS( MidiName ) END
CLASS( MovementNumber ) END
CLASS( NonArpeggiate ) ATTRIBUTES( NonArpeggiate, NonArpeggiateAttributes ) ALWAYS( Type ) FLAG( NonArpeggiateAttributes, Number ) FLAG( NonArpeggiateAttributes, DefaultX ) FLAG( NonArpeggiateAttributes, DefaultY ) FLAG( NonArpeggiateAttributes, RelativeX ) FLAG( NonArpeggiateAttributes, RelativeY ) FLAG( NonArpeggiateAttributes, Placement ) END
CLASS( NotationsChoice ) ONE( NotationsChoice, Tied, Tied ) ONE( NotationsChoice, Slur, Slur ) ONE( NotationsChoice, Tuplet, Tuplet ) ONE( NotationsChoice, Glissando, Glissando ) ONE( NotationsChoice, Slide, Slide ) ONE( NotationsChoice, Ornaments, Ornaments ) ONE( NotationsChoice, Technical, Technical ) ONE( NotationsChoice, Articulations, Articulations ) ONE( NotationsChoice, Dynamics, Dynamics ) ONE( NotationsChoice, Fermata, Fermata ) ONE( NotationsChoice, Arpeggiate, Arpeggiate ) ONE( NotationsChoice, NonArpeggiate, NonArpeggiate ) ONE( NotationsChoice, AccidentalMark, AccidentalMark ) ONE( NotationsChoice, OtherNotation, OtherNotation ) CHOICE( NotationsChoice, NotationsChoice::Choice ) PICK( NotationsChoice::Choice, tied ) PICK( NotationsChoice::Choice, slur ) PICK( NotationsChoice::Choice, tuplet ) PICK( NotationsChoice::Choice, glissando ) PICK( NotationsChoice::Choice, slide ) PICK( NotationsChoice::Choice, ornaments ) PICK( NotationsChoice::Choice, technical ) PICK( NotationsChoice::Choice, articulations ) PICK( NotationsChoice::Choice, dynamics ) PICK( NotationsChoice::Choice, fermata ) PICK( NotationsChoice::Choice, arpeggiate ) PICK( NotationsChoice::Choice, nonArpeggiate ) PICK( NotationsChoice::Choice, accidentalMark ) PICK( NotationsChoice::Choice, otherNotation ) END
CLASS( Octave ) END
CLASS( OtherAppearance ) ATTRIBUTES( OtherAppearance, OtherAppearanceAttributes ) ALWAYS( Type ) END
CLASS( PageHeight ) END
CLASS( PartGroupOrScorePart ) ONE( PartGroupOrScorePart, PartGroup, PartGroup ) ONE( PartGroupOrScorePart, ScorePart, ScorePart ) CHOICE( PartGroupOrScorePart, PartGroupOrScorePart::Choice ) PICK( PartGroupOrScorePart::Choice, partGroup ) PICK( PartGroupOrScorePart::Choice, scorePart ) END
CLASS( PedalAlter ) END
CLASS( Pitched ) END
CLASS( Properties ) ONE( Properties, EditorialGroup, EditorialGroup ) OPT( Properties, Divisions, Divisions ) OPT( Properties, Staves, Staves ) OPT( Properties, PartSymbol, PartSymbol ) OPT( Properties, Instruments, Instruments ) SET( Properties, Key, Key, 0, -1 ) AT( Properties, Key ) SET( Properties, Time, Time, 0, -1 ) AT( Properties, Time ) SET( Properties, Clef, Clef, 0, -1 ) AT( Properties, Clef ) SET( Properties, StaffDetails, StaffDetails, 0, -1 ) AT( Properties, StaffDetails ) SET( Properties, Transpose, Transpose, 0, -1 ) AT( Properties, Transpose ) SET( Properties, Directive, Directive, 0, -1 ) AT( Properties, Directive ) SET( Properties, MeasureStyle, MeasureStyle, 0, -1 ) AT( Properties, MeasureStyle ) END
CLASS( RightMargin ) END
CLASS( Scordatura ) SET( Scordatura, Accord, Accord, 1, -1 ) AT( Scordatura, Accord ) END
CLASS( SenzaMisura ) END
CLASS( SnapPizzicato ) ATTRIBUTES( SnapPizzicato, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( Staccatissimo ) ATTRIBUTES( Staccatissimo, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( StaffTuning ) ONE( StaffTuning, TuningStep, TuningStep ) OPT( StaffTuning, TuningAlter, TuningAlter ) ONE( StaffTuning, TuningOctave, TuningOctave ) ATTRIBUTES( StaffTuning, StaffTuningAttributes ) FLAG( StaffTuningAttributes, Line ) END
CLASS( StickType ) END
CLASS( Syllabic ) END
CLASS( TechnicalChoice ) ONE( TechnicalChoice, UpBow, UpBow ) ONE( TechnicalChoice, DownBow, DownBow ) ONE( TechnicalChoice, Harmonic, Harmonic ) ONE( TechnicalChoice, OpenString, OpenString ) ONE( TechnicalChoice, ThumbPosition, ThumbPosition ) ONE( TechnicalChoice, Fingering, Fingering ) ONE( TechnicalChoice, Pluck, Pluck ) ONE( TechnicalChoice, DoubleTongue, DoubleTongue ) ONE( TechnicalChoice, TripleTongue, TripleTongue ) ONE( TechnicalChoice, Stopped, Stopped ) ONE( TechnicalChoice, SnapPizzicato, SnapPizzicato ) ONE( TechnicalChoice, Fret, Fret ) ONE( TechnicalChoice, String, String ) ONE( TechnicalChoice, HammerOn, HammerOn ) ONE( TechnicalChoice, PullOff, PullOff ) ONE( TechnicalChoice, Bend, Bend ) ONE( TechnicalChoice, Tap, Tap ) ONE( TechnicalChoice, Heel, Heel ) ONE( TechnicalChoice, Toe, Toe ) ONE( TechnicalChoice, Fingernails, Fingernails ) ONE( TechnicalChoice, Hole, Hole ) ONE( TechnicalChoice, Arrow, Arrow ) ONE( TechnicalChoice, Handbell, Handbell ) ONE( TechnicalChoice, OtherTechnical, OtherTechnical ) CHOICE( TechnicalChoice, TechnicalChoice::Choice ) PICK( TechnicalChoice::Choice, upBow ) PICK( TechnicalChoice::Choice, downBow ) PICK( TechnicalChoice::Choice, harmonic ) PICK( TechnicalChoice::Choice, openString ) PICK( TechnicalChoice::Choice, thumbPosition ) PICK( TechnicalChoice::Choice, fingering ) PICK( TechnicalChoice::Choice, pluck ) PICK( TechnicalChoice::Choice, doubleTongue ) PICK( TechnicalChoice::Choice, tripleTongue ) PICK( TechnicalChoice::Choice, stopped ) PICK( TechnicalChoice::Choice, snapPizzicato ) PICK( TechnicalChoice::Choice, fret ) PICK( TechnicalChoice::Choice, string_ ) PICK( TechnicalChoice::Choice, hammerOn ) PICK( TechnicalChoice::Choice, pullOff ) PICK( TechnicalChoice::Choice, bend ) PICK( TechnicalChoice::Choice, tap ) PICK( TechnicalChoice::Choice, heel ) PICK( TechnicalChoice::Choice, toe ) PICK( TechnicalChoice::Choice, fingernails ) PICK( TechnicalChoice::Choice, hole ) PICK( TechnicalChoice::Choice, arrow ) PICK( TechnicalChoice::Choice, handbell ) PICK( TechnicalChoice::Choice, otherTechnical ) END
CLASS( TimeChoice ) ONE( TimeChoice, SenzaMisura, SenzaMisura ) SET( TimeChoice, TimeSignatureGroup, TimeSignatureGroup, 1, -1 ) AT( TimeChoice, TimeSignatureGroup ) CHOICE( TimeChoice, TimeChoice::Choice ) PICK( TimeChoice::Choice, timeSignature ) PICK( TimeChoice::Choice, senzaMisura ) END
CLASS( Toe ) ATTRIBUTES( Toe, ToeAttributes ) FLAG( ToeAttributes, DefaultX ) FLAG( ToeAttributes, DefaultY ) FLAG( ToeAttributes, RelativeX ) FLAG( ToeAttributes, RelativeY ) FLAG( ToeAttributes, FontFamily ) FLAG( ToeAttributes, FontStyle ) FLAG( ToeAttributes, FontSize ) FLAG( ToeAttributes, FontWeight ) FLAG( ToeAttributes, Color ) FLAG( ToeAttributes, Placement ) FLAG( ToeAttributes, Substitution ) END
CLASS( TripleTongue ) ATTRIBUTES( TripleTongue, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( TupletNumber ) ATTRIBUTES( TupletNumber, TupletNumberAttributes ) FLAG( TupletNumberAttributes, FontFamily ) FLAG( TupletNumberAttributes, FontStyle ) FLAG( TupletNumberAttributes, FontSize ) FLAG( TupletNumberAttributes, FontWeight ) END
CLASS( VirtualInstrument ) OPT( VirtualInstrument, VirtualLibrary, VirtualLibrary ) OPT( VirtualInstrument, VirtualName, VirtualName ) END
CLASS( Wood ) END
}
}
