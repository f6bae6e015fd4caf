"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=None)))

p('C01','Field writes store the canonical value and announce it exactly once',
  'Writing a value to any value or single-node field of any node (not lists of nodes, nor weak references), with or without the compiled extensions, stores the type\'s canonical form of that value in that field and no other (the root bookkeeping of node values aside), makes it the value the next read returns, and sends exactly one "set" notification from that node carrying the stored value (none when the write asks for silence). A value the type cannot accept raises ValueError and leaves the node unchanged and unannounced.',
  ['inputs','histories','configurations'],'every node state, field, value (acceptable or not), way of writing (attribute, explicit call, silent call, class-level) and both builds',
  'tests write a handful of translations and rotations to one node in each build; no test sends a rejected value, observes notifications, or looks at the other fields',
  ['vrml/field.py','accelerate/src/fieldaccel2.pyx'],
  [('BaseField.__set__/fset/_set','vrml/field.py'),('BaseField.__set__/fset/_set (compiled)','accelerate/src/fieldaccel2.pyx')],
  [('client.__dict__[field.name]','the stored value','vrml/field.py')],['reads of the field','pydispatch receivers connected to (("set", field), node)'])
p('C02','Unset fields read their own private default, silently',
  'Reading a field that has no stored value returns the canonical form of the field\'s declared default, stores it so that later reads return the same object, and sends no notification; reading a field that has a value returns that very object and changes nothing. Two nodes never share a default that is a list or an array (and instances of a prototype get copies of default nodes), and reading through the class returns the field definition itself.',
  ['inputs','histories','configurations'],'every field (with plain or callable default), every node state, both builds',
  'tests read a few defaults of one node class; sharing between nodes and silence are never observed',
  ['vrml/field.py','accelerate/src/fieldaccel2.pyx'],
  [('BaseField.__get__/getDefault','vrml/field.py'),('BaseField.__get__/getDefault (compiled)','accelerate/src/fieldaccel2.pyx')],
  [('client.__dict__[field.name]','the stored value, absent until set or first read','vrml/field.py')],['reads of the field','pydispatch receivers'])
p('C03','Deleting a field removes its value and announces the removal once',
  'Deleting a field that has a value removes exactly that value, so that the field reads as its default again, and sends exactly one "del" notification from the node (none when asked for silence). Deleting a field that has no value raises AttributeError naming the field, changes nothing and sends nothing; pure-Python and compiled builds behave alike.',
  ['inputs','histories','configurations'],'every node state and field, every history of writes, reads and deletes before it, both builds',
  'no test deletes a field (the pure-Python build did not delete at all)',
  ['vrml/field.py','accelerate/src/fieldaccel2.pyx'],
  [('BaseField.__delete__/fdel','vrml/field.py'),('BaseField.__delete__/fdel/_del (compiled)','accelerate/src/fieldaccel2.pyx')])
p('C04','Coercion yields each type\'s canonical form, is idempotent and never aliases',
  'For every field type, a supported value (number, text form, nested lists, arrays of any numeric type) is converted to the type\'s one canonical representation - element type, array shape, numeric values - and anything else is refused with ValueError or TypeError (numbers beyond the range of an integer type with OverflowError at most); coercing a canonical value again gives an equal value. The stored value of an array or list type shares no storage with the caller\'s, nor with a value stored elsewhere, so that none can change another later.',
  ['inputs'],'every field type and every input value of every supported and unsupported kind, including nesting depth, length and sign, the elements of arrays lying within the range of the type',
  'one test coerces a few MFVec3f and colour values; most types, input kinds, aliasing and rejection are never exercised',
  ['vrml/fieldtypes.py','vrml/arrays.py'],
  [('coerce of the SF*/MF* types','vrml/fieldtypes.py'),('_collapse/collapse','vrml/fieldtypes.py'),('contiguous','vrml/arrays.py')])
p('C05','Colours accept every documented notation and always lie in [0,1]',
  'A colour field accepts number triples, CSS colour names in any letter case, and #rrggbb hexadecimal notation in any letter case, giving the components the notation denotes divided by full scale (names to four decimals), and multiple-colour fields accept lists mixing these in any order, the numbers of each triple simply following one another. Every component of a stored colour is within 0 to 1, and text that is neither a colour name nor # followed by hexadecimal, or an incomplete triple, is refused with an error.',
  ['inputs'],'every string and every sequence of numbers (NaN aside) and strings',
  'the only colour checks are a self-test in a module that the suite does not run',
  ['vrml/csscolors.py','vrml/fieldtypes.py'],
  [('stringToColor','vrml/csscolors.py'),('_SFColor.coerce/_MFColor.coerce/_Color.coerce','vrml/fieldtypes.py')])
p('C06','Observable lists behave as lists and announce exactly the membership changes',
  'After any mutation an observable list holds exactly what the same operation leaves in an ordinary list, and an operation that an ordinary list refuses raises the same kind of error and announces nothing. While items are distinct, each item that enters is announced once as new (from the list or its registered sender) and once as added (from the item), each item that leaves is announced once as deleted and once as removed, and items that stay are not announced.',
  ['inputs','histories'],'every duplicate-free list content, operation (append, insert, extend, +=, pop, remove, clear, item and slice assignment and deletion), index, slice and iterable',
  'tests check a few operations on lists of at most a few items; deletion by index, +=, extended and out of range slices, and overlapping replacement are not sampled',
  ['vrml/olist.py'],[('OList mutators','vrml/olist.py'),('OList._sendAdded/_sendRemoved','vrml/olist.py')],
  [('sender','weak reference to the node in whose name events are sent','vrml/olist.py')],['list contents','pydispatch messages new/added/del/removed'])
p('C07','Node-valued fields hold only suitable nodes and announce child-list changes',
  'A field that holds nodes accepts only nodes of its required type (None and the NULL node standing for no node; a one-item sequence standing for its item; a single node standing for a one-item list, a false value for an empty one) and refuses everything else with ValueError. However a node\'s child list came to be - constructed, assigned, or created by default - a later mutation of the list is announced as a change of that field of that node and of no other field, and a node assigned into a rooted node without a root of its own takes over that root.',
  ['inputs','histories'],'every value, required type, way the list came to be and later mutation',
  'tests build scenes through constructors only and never observe notifications of child lists, rejection or root propagation',
  ['vrml/node.py','vrml/olist.py','vrml/field.py'],
  [('_SFNode.coerce/fset','vrml/node.py'),('_MFNode.coerce/fset','vrml/node.py'),('_changeSender','vrml/node.py')],
  [('" root" field','weak reference to the root scenegraph','vrml/node.py')])
p('C08','Routed values arrive exactly once per cascade and every cascade ends',
  'When a routed field or event changes, every destination reachable over routes (fan-out, fan-in, chains and cycles alike) receives the value, converted to its own type, exactly once in that cascade, and the cascade terminates. Each cascade is independent of earlier ones, a deletion forwards the source\'s default, and fields that are not reachable are not touched.',
  ['inputs','histories','configurations'],'every finite routing graph, including cycles, diamonds and self-routes, every initiating change and sequence of changes',
  'no test builds a route',
  ['vrml/route.py','vrml/event.py'],
  [('ROUTE.bind/forward/_forward','vrml/route.py'),('IS.forward','vrml/route.py'),('Event.visited','vrml/event.py')],
  [('Event visited set','destinations that already received the cascade','vrml/event.py')])
p('C09','Cached data is returned until a dependency changes, and never afterwards',
  'Data cached for an object under a key is what lookups of exactly that object and key return until it is cleared; setting, deleting or routing into any field it was declared to depend on, or the death of an object it depends on, clears that holder and no other. When the owning object dies all of its entries disappear, so that a new object never sees a dead one\'s data.',
  ['inputs','histories'],'every history of caching, depending, changing, clearing and object death, over any number of owners and keys',
  'the cache has no tests of its own; path tests touch two changes of one transform',
  ['vrml/cache.py'],
  [('Cache.getHolder/getData/holder','vrml/cache.py'),('CacheHolder.__init__/depend/clear/__call__','vrml/cache.py')],
  [('Cache','owner id -> key -> holder','vrml/cache.py')])
p('C10','Path matrices always reflect the current transforms of the path',
  'The matrix of a scene path always equals the product of the current local matrices of its transforms, leaf first, and its inverse variant the product of their inverses in the opposite order, for every combination of the translate, scale and rotate switches. This holds however often matrices were asked for before and whichever transform attributes (translation, rotation, scale, scaleOrientation, center) were changed, deleted or routed into in between.',
  ['inputs','histories'],'every path, every attribute value, every switch combination and every interleaving of queries and attribute changes',
  'two tests change a translation and a rotation once each and ask for the default switches; the scale-only variant was stale after a change of center',
  ['vrml/vrml97/nodepath.py','vrml/vrml97/basenodes.py','vrml/cache.py','vrml/vrml97/transformmatrix.py'],
  [('_NodePath.transformMatrix','vrml/vrml97/nodepath.py'),('Transform.localMatrices','vrml/vrml97/basenodes.py')])
p('C11','Transform matrices follow the VRML97 equation and their inverses undo them',
  'The matrix computed from translation, center, rotation, scale, scaleOrientation and a parent matrix is the VRML97 product (row vectors: -center, -scaleOrientation, scale, scaleOrientation, rotation, center, translation, then parent), each factor being the exact translation, scaling or right-handed rotation matrix, and the inverse variant, before any parent, is its inverse whenever no scale component is zero. A component reported as absent is an identity, and the pure-Python and compiled builds agree.',
  ['inputs','configurations'],'all real parameter values with non-zero rotation axes and scales, any axis length, any angle, both builds',
  'tests compare a few numeric samples',
  ['vrml/vrml97/transformmatrix.py','vrml/vrml97/_transformmatrix.py','vrml/vrml97/_transformmatrix_accel.py','accelerate/src/tmatrixaccel.pyx'],
  [('rotMatrix/scaleMatrix/transMatrix','vrml/vrml97/_transformmatrix.py'),('transformMatrix/itransformMatrix/transformMatrices/localMatrices/compressMatrices/center','vrml/vrml97/transformmatrix.py')])
p('C12','Strings survive being written and parsed',
  'Any string value, and any list of string values, written in VRML syntax and parsed again yields exactly the original characters and list. Quotes, backslashes, control characters, comment marks, brackets and any length or number of strings included.',
  ['inputs'],'all strings and all lists of strings',
  'tests write one fixture with plain words; lists of strings did not parse back at all',
  ['vrml/fieldtypes.py','vrml/vrml97/parseprocessor.py','vrml/vrml97/parser.py','vrml/vrml97/linearise.py'],
  [('SFString_vrmlstr/MFString_vrmlstr','vrml/fieldtypes.py'),('SFString/MFString handlers','vrml/vrml97/parseprocessor.py'),('SFString production','vrml/vrml97/parser.py')])
p('C13','Numbers survive being written and parsed',
  'Any finite number, boolean, vector, rotation, colour or array of them, written in VRML syntax and parsed into a field of the same type yields a value equal bit for bit to the one written. This holds for every magnitude, sign, exponent form and array length.',
  ['inputs'],'all finite values of all numeric field types, and all lengths',
  'tests write two scenes with small round numbers and compare no parsed value',
  ['vrml/fieldtypes.py','vrml/vrml97/parseprocessor.py','vrml/vrml97/parser.py'],
  [('SFFloat_vrmlstr/MFSimple_vrmlstr/vrmlstr methods','vrml/fieldtypes.py'),('number handlers','vrml/vrml97/parseprocessor.py')])
p('C14','Scenes survive being written and parsed',
  'Writing a scene of built-in nodes and parsing the text yields a scene with the same node types, DEF names, attribute values, nesting and routes; an attribute is left out only when its value equals the default in every component. A node with a DEF name that occurs several times is written once and referred to afterwards, so that it is one shared node after parsing.',
  ['inputs'],'every acyclic scene of built-in nodes with parsable attribute types, any sharing of DEF-named nodes, any routes between them',
  'tests check that two words occur in the output of two scenes; nothing is parsed back',
  ['vrml/vrml97/linearise.py','vrml/arrays.py','vrml/vrml97/parseprocessor.py'],
  [('Lineariser._Node/_attrDict/_sffield/_mfnode/_canUse/_route','vrml/vrml97/linearise.py'),('safeCompare','vrml/arrays.py')],
  [('alreadydone','nodes already written','vrml/vrml97/linearise.py')])
p('C15','Scene name tables resolve exactly the registered names',
  'Registering a node under a DEF name makes that name resolve to that node, gives the node that name, and frees the name the node bore before (where that was registered to it), while every other name keeps resolving as it did. A prototype name resolves to the nearest registration going from the scene outwards through its enclosing scenes, and to nothing when there is none.',
  ['inputs','histories'],'every sequence of registrations, renamings and lookups, every nesting of scenes',
  'tests reach registration only through parsing two fixtures and never rename, shadow or miss',
  ['vrml/vrml97/scenegraph.py'],
  [('SceneGraph.regDefName/getDEF','vrml/vrml97/scenegraph.py'),('SceneGraph.addProto/getProto','vrml/vrml97/scenegraph.py')],
  [('defNames','DEF name -> node','vrml/vrml97/scenegraph.py'),('protoTypes','prototype name -> class','vrml/vrml97/scenegraph.py')])
p('C16','References in parsed files resolve to what they name, or are reported',
  'In a parsed file every USE is the very node last defined under that name before it in the same scene, every ROUTE connects the nodes and fields it names, every node is an instance of the prototype in scope under its type name, and values go to the attribute they are written for. A name that is not defined raises NameError for nodes and prototypes, AttributeError for attributes set in nodes, giving the line number.',
  ['inputs','programs'],'every VRML file: all orders and nestings of DEF, USE, ROUTE, PROTO and unknown names',
  'tests parse two valid files and look at the number of root nodes',
  ['vrml/vrml97/parseprocessor.py','vrml/vrml97/scenegraph.py'],
  [('Node/USE/ROUTE/Proto/Attr/Field handlers','vrml/vrml97/parseprocessor.py')],
  [('sceneGraphStack/nodeStack/prototypeStack/fieldTypeStack','parsing context','vrml/vrml97/parseprocessor.py')])
p('C17','Plane culling culls exactly when one plane excludes every point',
  'The compiled culling test reports culled, with that plane, exactly when some plane has every point farther than the given margin behind it, and it reports the first such plane; otherwise it reports not culled with no plane. Arrays of the wrong width are refused with TypeError, and extra point components are ignored.',
  ['inputs'],'every number of planes and points, all coordinates and margins',
  'nothing in the suite calls it',
  ['accelerate/src/frustcullaccel.pyx'],[('planeCull','accelerate/src/frustcullaccel.pyx')])
p('C18','Copies and prototype instances share no mutable state with their source',
  'Copying a node or scene gives the same types, names and attribute values with every contained node copied once, so that sharing inside the source is sharing inside the copy and no change to either side shows in the other. Each instance of a prototype owns its body: each interface field drives exactly the mapped fields of that instance\'s own body, initially with the declared default, and never another instance\'s.',
  ['inputs','histories'],'every scene and prototype definition (nested ones, several mappings per field), every number of instances and copies, every change afterwards',
  'no test copies anything or makes two instances of one prototype (instances did share state)',
  ['vrml/node.py','vrml/copier.py','vrml/field.py','vrml/vrml97/scenegraph.py','vrml/route.py'],
  [('Node.copy','vrml/node.py'),('PrototypedNode.instantiate','vrml/node.py'),('Copier.use','vrml/copier.py'),('copyValue of the field types','vrml/fieldtypes.py'),('SceneGraph.copy','vrml/vrml97/scenegraph.py')],
  [('Copier.useNodes','source node -> copy','vrml/copier.py')])
p('C19','Projection matrices are the OpenGL ones and their inverses undo them',
  'The perspective matrix for a field of view, aspect ratio and near and far distance is the transposed gluPerspective matrix, mapping the near plane to depth -1 and the far plane to +1, and its inverse variant is its matrix inverse. The orthographic matrix maps the given box (as column vectors) to the cube from -1 to 1 in each axis, and the pure-Python and compiled builds agree.',
  ['inputs','configurations'],'all real parameters with 0 < fovy < pi, positive aspect, distinct non-zero distances and non-empty boxes, both builds',
  'tests compare one sample of the perspective matrix',
  ['vrml/vrml97/_transformmatrix.py','accelerate/src/tmatrixaccel.pyx'],
  [('perspectiveMatrix/orthoMatrix','vrml/vrml97/_transformmatrix.py'),('perspectiveMatrix/orthoMatrix (compiled)','accelerate/src/tmatrixaccel.pyx')])
p('C20','Field lookup finds the field a name denotes, or fails with AttributeError',
  'Looking up a field or event of a node type by attribute name, by storage name, or by the set_ and _changed forms of either returns the field or event object itself, the first of these that matches taking precedence, for nodes and node types alike. A name that denotes nothing raises AttributeError, and listing the fields of a type yields, for every name under which the type or an ancestor defines a field, exactly once its most derived such definition.',
  ['inputs'],'every node type and every name',
  'tests look up exact names only (storage names returned the name instead of the field)',
  ['vrml/protofunctions.py'],[('getField/getFields','vrml/protofunctions.py')])
p('C21','Node paths form a sequence algebra by identity',
  'The common part of two paths is their longest shared leading run of identical nodes, two paths are equal exactly when they have the same length and identical nodes in order, and slices and concatenations of paths are paths of the same kind with exactly those nodes. Extending a path records the new path as a child of the old one, to be listed as long as it is alive and only then.',
  ['inputs','histories'],'all paths of any length over any nodes (including nodes that compare equal without being identical)',
  'tests build one small tree of paths and list its children once',
  ['vrml/nodepath.py','vrml/vrml97/nodepath.py'],
  [('NodePath.common/__eq__/__add__/__getitem__','vrml/nodepath.py'),('_NodePath.__add__/iterchildren/transformChildren','vrml/vrml97/nodepath.py')])
p('C22','Weak lists are lists of their live items',
  'A weak list behaves as the ordinary list of its items under construction, iteration, indexing, slicing, assignment, insertion, extension, removal, search and comparison, while never keeping an item alive. When an item dies, all of its entries and nothing else disappear.',
  ['inputs','histories'],'every content, operation sequence and order of item deaths',
  'nothing in the suite uses a weak list directly',
  ['vrml/weaklist.py'],[('WeakList','vrml/weaklist.py')])
p('C23','Event ports hand each value to the handler once, remember and announce it',
  'Sending a value to an event port of a node calls the node\'s handler for that event, if it has one, exactly once with that value before anything else, then makes the value the port\'s readable last value and announces it exactly once (not at all when silence is asked for). Reading a port that never received a value raises AttributeError, and a handler that fails leaves the port unchanged and unannounced.',
  ['inputs','histories'],'every event name, value, handler signature and history',
  'no test sends an event',
  ['vrml/field.py'],[('Event.__set__/__get__','vrml/field.py')])
p('C24','Text and bytes conversions are exact and mutually inverse',
  'Converting text to bytes and back, or bytes that hold valid text to text and back, gives the original, and values already of the wanted kind are returned unchanged. Nothing is dropped, replaced or reordered.',
  ['inputs'],'all strings and all byte strings',
  'no test calls the conversions directly',
  ['vrml/_bytes.py'],[('as_str/as_8_bit','vrml/_bytes.py')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
