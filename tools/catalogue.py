"""
The properties: tools/gen.py makes properties.jsonl and MANIFEST.json of these.
"""

def P(id, title, statement, over, quantifier, why, files, mechanism, observe,
      technique, note):
    return dict(id=id, title=title, statement=' '.join(statement.split()),
                over=over, quantifier=' '.join(quantifier.split()),
                why=' '.join(why.split()), files=files, mechanism=mechanism,
                observe=observe, technique=technique,
                note=' '.join(note.split()))


EXHAUSTIVE = ('Bounded exhaustive exploration of the real code: every case within the '
              'bounds recorded in the evidence is executed and compared with an independent reference model; '
              'nothing is sampled. Trusts CPython, lxml and Beautiful Soup, and the reference model in ')

PROPERTIES = [

P('C01', 'Loading and saving keeps the whole document',
  """Loading a document and saving it again, in either format, keeps everything that
  was in it: every tag, attribute, string, comment and their order, whether or not
  the library knows what they mean, and whichever encoding the file was in. Strings are kept exactly,
  including spaces, newlines, quotes and markup characters, and are read by the API as
  the file has them. Reading anything through the API changes nothing.""",
  ['inputs', 'histories'],
  """Every document made of the content and strings enumerated, every real fixture, each
  pair of source and target formats, once and twice over, with and without reading
  everything in between.""",
  """The tests load half a dozen fixtures and look at a few values; only a couple of them
  save at all, and none compares the whole saved document with the original.""",
  ['sangfroid/format.py', 'sangfroid/animation.py', 'sangfroid/value/string.py',
   'sangfroid/value/value.py', 'sangfroid/layer/layer.py'],
  [('Format.main_file, Format.save', 'sangfroid/format.py'),
   ('accessors which must not write', 'sangfroid/field.py, sangfroid/value/*.py')],
  ['the saved file, parsed by lxml', 'the public accessors'],
  'explicit-state exploration of load/read/save histories over all small documents, on the real code',
  EXHAUSTIVE+'mc/sif.py.'),

P('C02', 'Saves go to the right file, in the format its name asks for',
  """Saving under a name writes exactly that file, in the format its extension
  asks for (plain for .sif, compressed for .sifz, in either case of letters), and the
  animation then belongs to that file; saving without a name writes the file it belongs to, in
  the format that file already had. A save which is refused (no name known, unknown extension,
  impossible place) writes nothing and leaves the animation belonging to the file it belonged to.
  No save touches or leaves behind any other file; symbolic links and
  permissions of an existing file survive.""".replace('.\n  No save', '; no save'),
  ['histories'],
  """All sequences of edits, saves, saves under other names (good and bad) and
  reopenings, from a blank animation and from files of either format, misnamed ones included.""",
  """The tests save once to one place. Which file is at risk depends on the whole history of
  saves, including the failed ones.""",
  ['sangfroid/animation.py', 'sangfroid/format.py'],
  [('Animation.save', 'sangfroid/animation.py'),
   ('Format.from_filename', 'sangfroid/format.py')],
  ['every file in the directory, after each operation'],
  'explicit-state exploration of save histories with a model of the file system, on the real code',
  EXHAUSTIVE+'mc/props/c02.py. One process.'),

P('C03', 'A save that fails or is interrupted never costs a document',
  """Whatever goes wrong during a save (the process is killed, the user interrupts it, the disk fills up,
  a file operation fails, the document cannot be written), each file afterwards holds
  either all it held before or the complete new document, with the permissions it had, and no
  other file is damaged. Unless the process died, nothing else is left behind, and the animation
  in memory is as it was, so that once the trouble is past saving it again works.""",
  ['crash_points', 'fault_sequences'],
  """A kill and an interruption at every line of Python a save executes; a full disk after every number of
  bytes; failure of each file operation in turn; for each format and for new and existing files.""",
  """No test injects a fault. Losing the old file needs a crash at particular points.""",
  ['sangfroid/format.py', 'sangfroid/animation.py'],
  [('write to a temporary file, then rename', 'sangfroid/format.py'),
   ('Animation.save', 'sangfroid/animation.py')],
  ['every file in the directory after each fault'],
  'exhaustive crash-point and fault enumeration of the real save in forked processes',
  EXHAUSTIVE+'mc/props/c03.py. Crashes of the process, not of the operating system; rename is atomic.'),

P('C04', 'Every time can be written down and read back',
  """The string form of any time is one Synfig can read (hours, minutes, seconds and frames,
  without exponents), and reading it at the same frame rate gives the same instant, to a
  millionth of a frame; this holds for fractional frames, negative times, times of hours, and
  fractional frame rates. Times written to files (waypoints, params, the end of
  the animation) therefore survive saving and loading.""",
  ['inputs'],
  """Every frame of a long range and every neighbourhood of a minute or hour boundary, at 17 frame
  rates and with none, in memory and by way of files.""",
  """The tests print a dozen times at 24 frames a second. Carries between units go wrong
  only next to boundaries and at fractional rates.""",
  ['sangfroid/t.py', 'sangfroid/value/simple.py', 'sangfroid/value/value.py', 'sangfroid/animation.py'],
  [('T.__str__ and T.__init__', 'sangfroid/t.py')],
  ['str() of times; the saved file'],
  'exhaustive enumeration of times and frame rates, print/parse round trip against an independent parser',
  EXHAUSTIVE+'mc/props/c04.py.'),

P('C05', 'A time specification means what it says, or is refused',
  """A time specification such as "1h 2m 3s 4f" means the sum of its parts at the document's frame rate,
  wherever in the document the reference stands, and a bare number means frames, negative ones counting back from
  the end of the animation. Malformed specifications (missing or unknown or repeated units, stray characters),
  and seconds without a known frame rate, are refused with ValueError, never
  guessed at. Frame and second counts of a time always agree.""",
  ['inputs'],
  """Every string of up to five characters of a twelve-character alphabet; every combination of units from small
  sets at 9 frame rates; every reference within a nested document; every index from the
  end for 96 lengths of animation.""",
  """The tests try about thirty well-formed strings. That nothing malformed gets through is a claim about all strings.""",
  ['sangfroid/t.py', 'docs/t.md'],
  [('T.__init__', 'sangfroid/t.py')],
  ['frames, seconds, fps of times'],
  'exhaustive enumeration of all short specification strings against a reference grammar',
  EXHAUSTIVE+'mc/props/c05.py.'),

P('C06', 'Times are ordered, equal and hashed consistently',
  """Times at one frame rate, or with no frame rate, and plain numbers of frames are totally ordered by their
  frame count: all six comparisons agree, equal ones hash equally, and so sorting and
  lookup in dicts and sets work. Times at different frame rates refuse
  comparison with ValueError, except where one is zero frames; a time never equals something
  which is not a time or a number.""",
  ['inputs'],
  """All pairs and triples from a set of times with and without frame rates, and numbers; all
  permutations for sorting.""",
  """The tests compare a few pairs. Transitivity and the hash contract are about all pairs and triples.""",
  ['sangfroid/t.py'],
  [('T.__eq__, T.__lt__, T.__hash__', 'sangfroid/t.py')],
  ['comparison operators, hash(), dicts and sorted()'],
  'exhaustive enumeration of pairs and triples of times against the reference order',
  EXHAUSTIVE+'mc/props/c06.py.'),

P('C07', 'A timeline is a sorted map from times to waypoints',
  """The timeline of a value behaves as a map from times to waypoints, always in order of time, under
  every sequence of setting, adding, deleting, assigning and (un)animating, whichever kind of time the keys are
  (numbers, strings, times, negatives from the end) and whichever handle on the value is used. Looking up a
  missing time raises KeyError; adding at a taken time without asking to overwrite, and waypoints of
  another type, are refused and change nothing. Removing the last waypoint, or ceasing to be animated, leaves
  the value static with the value of that (or the first) waypoint.""",
  ['histories'],
  """All histories of up to three of 28 operations on reals and two on each other type, from
  four starting states, at two frame rates; all orders of the waypoints in a file.""",
  """The tests do one operation at a time on a fresh value. Staleness between handles and
  ordering faults need sequences.""",
  ['sangfroid/value/value.py'],
  [('Timeline', 'sangfroid/value/value.py'), ('Value.is_animated, Value.timeline', 'sangfroid/value/value.py')],
  ['the timeline through every accessor and handle; the saved file'],
  'explicit-state exploration of all operation histories against a dict model, on the real code',
  EXHAUSTIVE+'mc/props/c07.py.'),

P('C08', 'No history of edits makes a document that cannot be read',
  """After any sequence of edits through the API which the API accepts, the saved file is a well-formed document:
  every param holds exactly one value, of a form its type allows; waypoints are in order, with
  types and interpolations Synfig knows; every layer is in the tree once. The library
  itself can reopen that file and read everything in it.""",
  ['histories'],
  """All histories of up to two of 60 edits and three of 17 of a document with layers nested three deep;
  every way of setting every param; something done to every param of each real fixture.""",
  """The tests check what one edit does to one value; hardly any of them saves and
  reopens the result, and none does so after two edits which interact.""",
  ['sangfroid/value/value.py', 'sangfroid/value/*.py', 'sangfroid/layer/layer.py', 'sangfroid/layer/group.py', 'sangfroid/field.py'],
  [('every setter', 'sangfroid/value/*.py, sangfroid/layer/*.py, sangfroid/field.py')],
  ['the saved file, against the rules in mc/editing.py; the library reading it'],
  'explicit-state exploration of all edit histories with an invariant on the saved document, on the real code',
  EXHAUSTIVE+'mc/editing.py (the rules of the file format).'),

P('C09', 'Waypoints keep their interpolation, value and attributes',
  """A waypoint keeps the interpolations it was given before and after it, by whichever of their names, and the
  file always has the name Synfig uses; its value, and any other attributes its tag or value has, stay with it when its timeline is
  changed elsewhere, reassigned, saved or reloaded. Unknown
  interpolation names are refused.""",
  ['histories', 'inputs'],
  """All pairs of interpolations by every name, for 9 types of value; all histories of up to three
  of 16 operations on a timeline of three waypoints.""",
  """The tests check the names one at a time, and that a timeline of known values can be read; whether an
  edit of one waypoint spoils its neighbours depends on history.""",
  ['sangfroid/value/value.py'],
  [('Waypoint', 'sangfroid/value/value.py'), ('INTERPOLATION_TYPES', 'sangfroid/value/value.py')],
  ['before, after and value of waypoints; the saved file'],
  'explicit-state exploration of waypoint histories against a model, on the real code',
  EXHAUSTIVE+'mc/props/c09.py.'),

P('C10', 'The layers of a group are an ordered list, each in one place',
  """Under any sequence of appending and inserting, the children of each group and of the animation form an ordered list (index 0 is the
  top layer; the file has them bottom first), over which indexing, negative indexes, iteration, length,
  children, descendants and parent all agree. Adding a layer which is already somewhere moves it, with
  all that is inside it, so each layer is in exactly one place. Whatever would put a group
  inside itself, and whatever is not a layer, is refused, changing nothing.""",
  ['histories'],
  """All histories of up to two of 100 moves and three of 24, from two trees, with
  every observation after each move.""",
  """The tests append or insert one new layer. Moving layers between groups, and observing from
  other handles afterwards, is history.""",
  ['sangfroid/layer/group.py', 'sangfroid/layer/layer.py', 'sangfroid/value/canvas.py'],
  [('Group', 'sangfroid/layer/group.py'), ('Layer.parent', 'sangfroid/layer/layer.py'), ('Canvas', 'sangfroid/value/canvas.py')],
  ['the group through every accessor; the saved file'],
  'explicit-state exploration of all move histories against a tree model, on the real code',
  EXHAUSTIVE+'mc/props/c10.py. One known finding: descendants stops at grandchildren.'),

P('C11', 'Searching finds every layer that matches, in order, and no other',
  """Searching for layers, by type name, class, description, attribute, any combination of them, or a function, and from anywhere in the tree,
  yields each layer which matches all the criteria, exactly once, in the order they are in the file, and no
  others; a search which is not recursive looks only at children. Finding one yields the first of
  these, or None if there are none. Searching changes nothing.""",
  ['inputs'],
  """Every tree of up to four layers of four types; about 70 queries on each from each starting
  layer; every type and description of the fixtures.""",
  """The tests run a few queries on two fixtures. Completeness is a claim about all trees and all queries.""",
  ['sangfroid/layer/layer.py', 'sangfroid/layer/group.py'],
  [('Group.find_all, Group.find', 'sangfroid/layer/group.py, sangfroid/layer/layer.py')],
  ['what find and find_all return'],
  'exhaustive enumeration of all small layer trees and queries against a reference search',
  EXHAUSTIVE+'mc/props/c11.py.'),

P('C12', 'An edit changes what it names, and nothing else',
  """Setting a param, a part of a transformation, an attribute or a timeline of a layer changes just that in the saved document: every other
  param and attribute, of that layer and of all the others (including those nested inside it with params of the same
  name), is as it was, to the letter. Setting an attribute of a layer never reaches into
  a layer inside it.""",
  ['histories', 'inputs'],
  """Every way of setting each of 36 params in a nested document whose layers share param names; all
  histories of up to two of 60 edits; every settable param of each of 57 types of layer.""",
  """The tests look at the value they have just set. That everything else is still there
  needs a comparison of the whole document for every param.""",
  ['sangfroid/field.py', 'sangfroid/layer/layer.py', 'sangfroid/value/*.py'],
  [('ParamTagField, TagAttrField', 'sangfroid/field.py'), ('Layer.__setitem__', 'sangfroid/layer/layer.py')],
  ['the whole saved document, before and after'],
  'explicit-state exploration of edit histories against a whole-document model, on the real code',
  EXHAUSTIVE+'mc/editing.py.'),

P('C13', 'What you set is what you get, however you set or get it',
  """A value of any type reads back, by every accessor and every handle, as the value that was set, whichever way it was set (by param, by
  attribute, by its own value, as a Python value or a Value, onto a static or an animated value), and again after saving and
  loading, to the precision the file has. This covers colours as hex (the nearest, if they are brighter than hex can say) and as components,
  strings with any characters, blend methods (whose names are Synfig's), numbers of all magnitudes, vectors, times and gradients.""",
  ['inputs'],
  """For each type, every value of an enumerated domain, by 6 routes from 3 starting states; every byte in every channel of a colour.""",
  """The tests set one or two values of each type by one route.""",
  ['sangfroid/value/*.py', 'sangfroid/field.py', 'sangfroid/layer/layer.py'],
  [('value setters and getters', 'sangfroid/value/*.py')],
  ['every accessor of values; the saved file'],
  'exhaustive enumeration of values x routes x starting states against reference semantics',
  EXHAUSTIVE+'mc/props/c13.py and mc/values.py.'),

P('C14', 'What is refused leaves everything as it was',
  """An operation which is refused (a value of the wrong type or out of range, a malformed time or colour, an unknown
  name, a bad waypoint, an impossible move) raises an exception and leaves the document, and everything read from it, exactly
  as it was, whatever was done before; later edits work as if it had not been tried.""",
  ['fault_sequences', 'histories'],
  """10-20 bad values for each type, for every param of a nested document, by 6 routes, static and animated; 75 other
  refusals; each of them after each of 17 edits and between pairs.""",
  """The tests check that a few bad values raise; not one looks at the document afterwards.""",
  ['sangfroid/value/*.py', 'sangfroid/field.py', 'sangfroid/layer/*.py'],
  [('validation before writing', 'sangfroid/value/*.py, sangfroid/layer/*.py')],
  ['the whole document after the exception'],
  'exhaustive enumeration of refusals at every point of bounded edit histories, on the real code',
  EXHAUSTIVE+'mc/props/c14.py.'),

P('C15', 'A new layer of any type is as Synfig would create it',
  """A newly created layer of each type has the type name, version, params and default values which Synfig itself gives
  such a layer, reads them so, and still has them after being added to a document, saved and
  loaded. Each new layer is separate: changing one changes no other, made before or after it.""",
  ['configurations', 'histories'],
  """Each of the 56 types, alone and in documents and groups; every settable param of each,
  changed in one instance; all pairs of types one after the other.""",
  """The tests create only a few types. Shared default objects show only when one instance is edited and another looked at.""",
  ['sangfroid/layer/*.py', 'sangfroid/field.py', 'sangfroid/registry.py', 'sangfroid/value/*.py'],
  [('Layer.__init__ and the fields of each class', 'sangfroid/layer/*.py'), ('defaults', 'sangfroid/field.py')],
  ['new layers in memory and in the saved file'],
  'exhaustive enumeration of layer types, params and creation orders against the file Synfig wrote',
  EXHAUSTIVE+'mc/props/c15.py; the oracle is test/pick-and-mix.sif, as written by Synfig. One known finding: Halftone3.'),

P('C16', 'Assigning a value copies it: the two then lead separate lives',
  """Assigning a value, a timeline, a waypoint or a transformation from one place to another (within a document,
  between documents, or from no document) copies it, animation included. From then
  on changing either, by any handle, never changes the other, and the place it came from still has it. Where the frame rates differ,
  or the frame rate changes, the instants are the same before saving as after.""",
  ['histories'],
  """All histories of up to three of 40 assignments and changes between five places for
  reals, two for seven other types, of three of 22 between transformations, and of three of 46 involving frame rates.""",
  """Aliasing shows only when an assignment is followed by a change on one side and
  a look at the other.""",
  ['sangfroid/value/value.py', 'sangfroid/value/transformation.py', 'sangfroid/field.py', 'sangfroid/layer/layer.py'],
  [('copying on assignment', 'sangfroid/value/value.py, sangfroid/field.py')],
  ['all the places, after each operation'],
  'explicit-state exploration of assignment histories against a model of separate cells, on the real code',
  EXHAUSTIVE+'mc/props/c16.py.'),

P('C17', 'Values with parts are the mappings and sequences they look like',
  """A vector, gradient or transformation can be read by any of its accessors (by key, by index, as an attribute, by
  iterating, as a tuple, by keys, values and items, and for a group's transformation by the group's own shortcuts), and
  all of them agree, whatever order and spacing the parts have in the file. Changing one part, by
  whichever of these gives access to it, changes that part and leaves the others as they were. A part which does not exist
  raises KeyError or AttributeError, or gives the default asked for.""",
  ['histories'],
  """All histories of up to three of 18 changes of a gradient, 26 of a transformation, and 16 of a vector, from starting
  points written in three ways, with every accessor tried after each.""",
  """The tests read constant values of each kind. Accessors which disagree do so after particular edits, or for files
  written in an unusual order.""",
  ['sangfroid/value/vector.py', 'sangfroid/value/gradient.py', 'sangfroid/value/transformation.py', 'sangfroid/field.py'],
  [('Vector', 'sangfroid/value/vector.py'), ('Gradient', 'sangfroid/value/gradient.py'),
   ('Composite', 'sangfroid/value/transformation.py'), ('ShortcutField', 'sangfroid/field.py')],
  ['every accessor of the values; the saved file'],
  'explicit-state exploration of edit histories of compound values against a model of their parts, on the real code',
  EXHAUSTIVE+'mc/props/c17.py.'),

P('C18', 'bywords shows each word when it is said',
  """For each subtitle which matches the text of a bywords group (ignoring case and punctuation), the text layers
  of the group show nothing until the line begins, and then each word in turn, or each letter if that was asked for; the time
  of the line is shared out among all the words of the group in proportion to the characters which have
  gone before. This is so however the words are divided between
  layers, however the layers hold their text, and for any times and frame rate.""",
  ['inputs', 'histories'],
  """All sequences of up to three of 4 words, divided between layers in every way, with 4 spans of time, 3 frame rates and 4 ways for a layer
  to hold its text; all sequences of up to three of 8 subtitles, for a document with 5 groups.""",
  """The tests run one example and compare a dozen times. Word weights, repeated lines, empty words and zero durations
  are combinations.""",
  ['bywords/bywords.py', 'bywords/adjust.py', 'docs/bywords.md'],
  [('Bywords', 'bywords/bywords.py'), ('adjust', 'bywords/adjust.py')],
  ['the timelines of the text layers, in memory and in the saved file'],
  'exhaustive enumeration of texts, divisions into layers and subtitles against a reference timing model',
  EXHAUSTIVE+'mc/speech.py.'),

P('C19', 'bywords changes the words it matched, in place, and nothing else',
  """Running the bywords command rewrites the animation it is given, in the format its name asks for, so that only the texts of the
  layers whose lines were matched have changed; all the rest of the document, the
  subtitles, and every other file are as they were. Running it again, or again in the other mode, gives just what running it once
  would have. If either file is missing or cannot be read, or what it needs of the animation is missing or
  damaged, it fails and changes no file.""",
  ['histories', 'fault_sequences'],
  """All sequences of up to two of 8 subtitles, run in every pair of modes; both formats, every
  way of naming the files and every option; 7 things which can go wrong.""",
  """The tests never run the command, nor save what it makes.""",
  ['bywords/__main__.py', 'bywords/adjust.py', 'bywords/bywords.py'],
  [('main', 'bywords/__main__.py'), ('adjust', 'bywords/adjust.py')],
  ['every file in the directory, before and after'],
  'explicit-state exploration of histories of runs of the real command against a whole-document model',
  EXHAUSTIVE+'mc/speech.py.'),

P('C20', "An animation's own settings and keyframes are those in the file",
  """Each setting of an animation (size, resolution, frame rate, times, gamma, view box, background, name and description) reads as the file has it,
  or as its default if the file lacks it (but the frame rate and times must be there), and setting it changes that setting in the file and
  no other. The settings which depend on others (frame count, size, times in seconds) always agree with them. Keyframes
  are listed in file order with their times, names and whether they are active.""",
  ['inputs', 'histories'],
  """Each of 16 settings with each of its values, present and absent; all histories of up to three of 20 changes; all sequences of up to three of 9 keyframes.""",
  """The tests read the settings of two fixtures, and hardly set any.""",
  ['sangfroid/animation.py', 'sangfroid/field.py', 'sangfroid/keyframe.py', 'sangfroid/format.py'],
  [('TagAttrField, TagTimeAttrField, NamedChildField', 'sangfroid/field.py, sangfroid/animation.py'),
   ('Keyframe', 'sangfroid/keyframe.py')],
  ['the attributes of the animation; the saved file'],
  'explicit-state exploration of settings and histories of changes against a model of the header',
  EXHAUSTIVE+'mc/props/c20.py.'),

P('C21', 'Names of types mean one thing however spelt, and none is guessed at',
  """The type of each layer and value in a file is recognised as its own class whatever the case of its letters and wherever its underscores are, whether
  loading or searching, static or animated, and is saved as it was spelt. A name which is not one of these raises
  KeyError, and is never taken for a similar one. In a registry the latest registration of a name wins, and registries are
  separate.""",
  ['inputs', 'histories'],
  """Each of the 56 types of layer and 17 of value in every spelling which differs in one place, and every near miss; all histories of up to four
  registrations.""",
  """The tests look up a few names.""",
  ['sangfroid/registry.py', 'sangfroid/util.py', 'sangfroid/layer/layer.py', 'sangfroid/value/value.py'],
  [('Registry', 'sangfroid/registry.py'), ('Layer.from_tag, Value.from_tag', 'sangfroid/layer/layer.py, sangfroid/value/value.py')],
  ['the classes of layers and values; the saved file'],
  'exhaustive enumeration of spellings and registration histories against a reference table',
  EXHAUSTIVE+'mc/props/c21.py.'),

P('C22', 'Regenerating the library rewrites only the blocks it is told to',
  """The template replacer rewrites the marked blocks it has text for (named after the class they are in, if they have no name of their own), and
  every other line of every file stays as it was; doing it again changes nothing more. A file whose blocks are
  malformed (unnamed, unterminated, begun inside another, or ended before they begin) is refused with ValueError and not changed. At whatever point it is interrupted, the file has either all its old
  contents or all its new.""",
  ['inputs', 'histories', 'crash_points'],
  """Every file of up to 6 of 7 kinds of line, with 6 sets of replacements; trees of three files; all histories of up to three replacements;
  interruption before each line executed.""",
  """No test covers it.""",
  ['sangfroid/template/replacer.py'],
  [('Replacer', 'sangfroid/template/replacer.py')],
  ['every file in the directory'],
  'exhaustive enumeration of small source files, histories and interruption points against a reference replacer',
  EXHAUSTIVE+'mc/props/c22.py.'),

P('C23', 'Values are equal exactly when they mean the same thing',
  """Two values of the same type are equal if they mean the same, however each was written or made (to a ten-thousandth for reals and a 255th for colours), and unequal
  otherwise; a value equals the plain Python value it could be set to, and a transformation a
  dict of its parts. Animated values equal only those with the same waypoints, interpolations and values. Equality is symmetric, is the opposite of inequality, and comparing
  a value with anything at all never raises an exception.""",
  ['inputs'],
  """For 9 types, all pairs of values, each made in every way, both ways round; all pairs of 18 animations of each, and
  of 22 transformations; every value with 18 things of other types.""",
  """The tests compare a few values with constants.""",
  ['sangfroid/value/*.py', 'sangfroid/t.py'],
  [('__eq__ of each type', 'sangfroid/value/*.py')],
  ['== and !='],
  'exhaustive enumeration of all pairs of values and representations against their meanings',
  EXHAUSTIVE+'mc/props/c23.py.'),

P('C24', 'A layer says of itself what the file says, and is a mapping of its params',
  """The description and flags of a layer read as the file has them, with a missing description (None) different from an empty one, and setting
  them changes that layer's attribute in the file and nothing else; its type and tag cannot be set. The keys, items and values of a layer are
  its own params, in file order, as are those found by name; looking up or setting an unknown
  name raises KeyError. Its parent and depth are those of its place in the file.""",
  ['histories', 'inputs'],
  """All histories of up to three of 16 settings from 36 combinations of attributes, in a document, a group and new; every param of every layer of each
  fixture.""",
  """The tests read the description of a few layers; setting flags and clearing descriptions isn't tested at all.""",
  ['sangfroid/field.py', 'sangfroid/layer/layer.py'],
  [('DescField, TagAttrField, TypeNameField', 'sangfroid/field.py'), ('Layer.keys, items, values, __contains__', 'sangfroid/layer/layer.py')],
  ['the attributes of layers; the saved file'],
  'explicit-state exploration of histories of settings against a model of the attributes, on the real code',
  EXHAUSTIVE+'mc/props/c24.py.'),

P('C25', 'A damaged part is refused when read, never guessed at, and harms nothing else',
  """Where a number, channel, co-ordinate, time, type, interpolation, value or header in a document is missing, doubled or nonsense, the document
  still loads, and reading that part (or anything which needs it) raises an exception: it never reads as some other value. Everything else in the document can be read, edited and
  saved as usual, and the damaged part is saved as it was. A file which is not a Synfig file at all, or is a compressed one cut short or corrupted, is refused with an exception, and
  left alone.""",
  ['inputs'],
  """Every single-point damage of every kind of value, static and in each of two waypoints; of params, layers, groups, headers and keyframes; every two-byte beginning of a file,
  every truncation of a compressed one, and every byte of it changed.""",
  """The tests hold no damaged documents but a couple of bad values.""",
  ['sangfroid/value/*.py', 'sangfroid/layer/*.py', 'sangfroid/field.py', 'sangfroid/format.py', 'sangfroid/keyframe.py'],
  [('Value.from_tag, Waypoint.from_tag, Timeline', 'sangfroid/value/value.py'), ('Format.from_filename', 'sangfroid/format.py'),
   ('the fields', 'sangfroid/field.py')],
  ['exceptions from reading; the other parts; the saved file'],
  'exhaustive enumeration of single-point damage to documents and files, on the real code',
  EXHAUSTIVE+'mc/props/c25.py.'),

P('C26', 'The Python expression for a value makes that value again',
  """The Python expression a static value gives for itself (which is how the library writes its own layer classes) is one valid expression, knowing nothing but the
  values module as v. Evaluated, and passed to the constructor of its class or set as the value of another, it gives the same value, exactly, for every type which is implemented;
  blend methods are given by name. Asking for it changes nothing.""",
  ['inputs'],
  """Every value of the domains of C13, in a document and alone; 240 transformations; every param of every type of layer.""",
  """The tests do not use these expressions.""",
  ['sangfroid/value/*.py', 'sangfroid/template/__main__.py'],
  [('as_python_expression', 'sangfroid/value/*.py')],
  ['the expression; the value made from it'],
  'exhaustive enumeration of values, expression and back, on the real code',
  EXHAUSTIVE+'mc/props/c26.py.'),
]
