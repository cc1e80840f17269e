#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'FCollada/FCDocument/'; U = 'FCollada/FUtils/'; M = 'FCollada/FMath/'; X = 'FColladaPlugins/FArchiveXML/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=''):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **(dict(observe_at=[observe]) if observe else {}))), note))

prop('P01', 'Scenes, geometry, controllers and animation survive an export-import round trip',
 'Any document that can be built through the API with geometry (meshes, splines), controllers, cameras, lights, scene nodes with every transform kind, instances, animations and clips, when exported and imported again, yields a document that is observably the same: same entities, names, values, indices, topology, instances and animation keys. Exporting the re-imported document gives the same document text again. Both operations report success.',
 ['inputs', 'configurations'], 'every document from a bounded grammar of scene features (each value alphabet includes zero, negative, extreme and non-default values)',
 'The tests export and import a handful of fixed scenes; feature combinations, non-default values and order dependence are unbounded.',
 [X+'FAXSceneExport.cpp', X+'FAXSceneImport.cpp', X+'FAXGeometryExport.cpp', X+'FAXGeometryImport.cpp', X+'FAXControllerExport.cpp', X+'FAXControllerImport.cpp', X+'FAXAnimationExport.cpp', X+'FAXAnimationImport.cpp', X+'FAXCameraExport.cpp', X+'FAXLightExport.cpp', X+'FAXStructures.h'],
 [('FArchiveXML::ExportFile / ImportFile', X+'FArchiveXML.cpp'), ('FArchiveXML::WriteGeometryMesh / LoadGeometryMesh', X+'FAXGeometryExport.cpp'), ('FArchiveXML::WriteSceneNode / LoadSceneNode', X+'FAXSceneExport.cpp')],
 observe='getters of the re-imported document; bytes of the re-exported text')
prop('P02', 'Materials, effects, images, physics, extras and assets survive a round trip',
 'Any document that can be built through the API with images, effects (every profile, parameter type, pass, shader, state, sampler, surface), materials, physics models, scenes, bodies, shapes and constraints, force fields, emitters, extra trees and asset information, when exported and imported again, yields a document that is observably the same. Exporting the re-imported document gives the same text again. Both operations report success.',
 ['inputs', 'configurations'], 'every document from a bounded grammar of those entities with all their parameter kinds and non-default values',
 'The tests cover one instance of each entity with mostly default values.',
 [X+'FAXMaterialExport.cpp', X+'FAXMaterialImport.cpp', X+'FAXPhysicsExport.cpp', X+'FAXPhysicsImport.cpp', X+'FAXForceFieldExport.cpp', X+'FAXEmitterExport.cpp', X+'FAXEntityExport.cpp', X+'FAXEntityImport.cpp', X+'FAXInstanceExport.cpp', X+'FAXInstanceImport.cpp'],
 [('FArchiveXML::WriteEffect / LoadEffect', X+'FAXMaterialExport.cpp'), ('FArchiveXML::WritePhysicsModel / LoadPhysicsModel', X+'FAXPhysicsExport.cpp'), ('FArchiveXML::WriteExtra / LoadExtra', X+'FAXEntityExport.cpp')],
 observe='getters of the re-imported document; bytes of the re-exported text')
prop('P03', 'Import survives malformed and incomplete documents',
 'Importing a COLLADA text in which any element, attribute or text is missing, duplicated, emptied or replaced by a wrong or dangling value never crashes, reads or writes memory out of bounds, uses a freed object or hangs. The import ends with success or with failure and reported errors, the resulting document can be traversed, exported and destroyed, and text that is not well-formed XML is reported as a failure.',
 ['inputs', 'fault_sequences'], 'every single mutation (all kinds, at every element and attribute) of a set of documents that use every feature, and pairs of mutations in the thorough tier; every truncation point',
 'Tests import well-formed documents only.',
 [X+'FAXGeometryImport.cpp', X+'FAXControllerImport.cpp', X+'FAXAnimationImport.cpp', X+'FAXSceneImport.cpp', X+'FAXMaterialImport.cpp', X+'FAXPhysicsImport.cpp', X+'FAXColladaParser.cpp', U+'FUXmlParser.cpp'],
 [('FArchiveXML::ImportFile', X+'FArchiveXML.cpp'), ('FUXmlDocument', U+'FUXmlDocument.cpp')], observe='sanitizer reports, return value, error callbacks')
prop('P04', 'I/O failures are reported, and files hold what was written',
 'When any call to the operating system that is made while a document (FCollada::SaveDocument and LoadDocumentFromFile), an XML document or a file (FUFile) is written or read fails or is cut short, the operation reports failure: a save, a load, FUXmlDocument::Write and the operations of FUFile return true only when the complete data was written or read; a failing save or load also gives an error message. No file remains open, the exported document is not changed, and the next save or load works. A file that was written successfully reads back byte for byte the same, and reading beyond its end fails.',
 ['fault_sequences', 'crash_points'], 'every single failing or short I/O call, at each position in the sequence of calls, for each export / import / file operation',
 'Tests never meet a full disk or a failing read.',
 [U+'FUFile.cpp', U+'FUXmlDocument.cpp', X+'FArchiveXML.cpp', 'FCollada/FCollada.cpp'],
 [('FUFile', U+'FUFile.cpp'), ('FUXmlDocument::Write', U+'FUXmlDocument.cpp'), ('FArchiveXML::ExportFile', X+'FArchiveXML.cpp')], observe='return values, error callbacks, file bytes')
prop('P05', 'Object ownership, tracking and references never dangle or leak',
 'Whatever the order in which objects are created, put into owning references and containers, tracked by pointers, lists and trackers, moved between them and released, every owned object is destroyed exactly once, when its owner drops it, and no other time. Every tracking pointer or list that named a destroyed object is cleared of it at once, every tracker is told exactly once, and trackers can be added, copied or removed at any moment, including while a release is being announced.',
 ['histories'], 'every operation sequence up to a bound over a small set of objects, references, containers, trackers',
 'Tests run a few straight-line sequences.',
 [U+'FUObject.cpp', U+'FUObject.h', U+'FUTracker.cpp', U+'FUTracker.h'],
 [('FUObjectContainer / FUObjectRef', U+'FUObject.h'), ('FUTrackable::Detach', U+'FUTracker.cpp'), ('FUTrackedPtr / FUTrackedList', U+'FUTracker.h')], observe='destructor log, pointer values, list contents')
prop('P06', 'Identifiers within a document are unique, valid and resolvable',
 'After any sequence of creating, naming, renaming, cloning and releasing objects, no two live objects of one document have the same identifier, each identifier is a valid XML name derived from what was asked (kept unchanged when free and valid), and looking an identifier up finds exactly the object that has it. Names released or abandoned become available again.',
 ['histories'], 'every sequence of id operations up to a bound with colliding, numbered, empty and invalid names',
 'Tests use a few fixed names; collisions depend on history.',
 [D+'FCDObjectWithId.cpp', U+'FUUniqueStringMap.cpp', U+'FUUniqueStringMap.h', D+'FCDEntity.cpp', D+'FCDLibrary.hpp'],
 [('FUSUniqueStringMap', U+'FUUniqueStringMap.cpp'), ('FCDObjectWithId::SetDaeId', D+'FCDObjectWithId.cpp')], observe='GetDaeId, FindDaeId, library contents')
prop('P07', 'The scene graph stays a consistent acyclic graph under every edit',
 'After any sequence of adding, removing, sharing, releasing and instancing nodes, parent and child links mirror each other, the graph has no cycle, edits that would create one are refused and change nothing, and a node shared by several parents lives exactly until its last parent lets it go. Depth-first and breadth-first iteration visit every reachable node in the defined order, and lookups by identifier or sub-identifier find what is there.',
 ['histories'], 'every edit sequence up to a bound on a few nodes',
 'Tests build a few trees.', [D+'FCDSceneNode.cpp', D+'FCDSceneNodeIterator.hpp', D+'FCDSceneNodeIterator.cpp', D+'FCDEntityInstance.cpp'],
 [('FCDSceneNode::AddChildNode / RemoveChildNode', D+'FCDSceneNode.cpp'), ('FCDSceneNodeIterator', D+'FCDSceneNodeIterator.hpp')], observe='parents, children, iteration order, destructor log')
prop('P08', 'Every transform and transform stack gives the defined matrix',
 'For all values, each transform kind (translate, rotate, scale, matrix, look-at, skew) converts to the matrix that COLLADA defines, a node\'s local matrix is the product of its transforms in order, and its world matrix is the product along the path to the root. Setting a transform from a matrix or rotation represents the same rotation or matrix where the kind can represent it, and animated transforms evaluate to the matrix of the animated values.',
 ['inputs', 'configurations'], 'all transform stacks up to a bound over value grids with axis-aligned, negative, zero and generic values',
 'Tests check one or two matrices.', [D+'FCDTransform.cpp', D+'FCDSceneNode.cpp', D+'FCDTargetedEntity.cpp'],
 [('FCDTransform::ToMatrix', D+'FCDTransform.cpp'), ('FCDSceneNode::CalculateLocalTransform / CalculateWorldTransform', D+'FCDSceneNode.cpp')], observe='matrices')
prop('P09', 'Animation curves evaluate to the defined value at every time',
 'For every set of keys and every interpolation kind, a curve passes through its key values at the key times, interpolates between neighbouring keys as the interpolation kind of the segment defines (step holds, linear interpolates linearly, Bezier follows the tangents and stays monotone in time, TCB is continuous), and outside of the keys follows the pre- and post-infinity mode (constant, linear, cycle, cycle-relative, oscillate). The result depends only on the keys, never on earlier evaluations, and is finite.',
 ['inputs'], 'all curves of up to a bounded number of keys over grids of times, values, tangents, interpolations and infinity modes, at all times of a grid reaching outside',
 'Tests sample one or two curves.', [D+'FCDAnimationCurve.cpp', D+'FCDAnimationKey.cpp', D+'FCDAnimationMultiCurve.cpp'],
 [('FCDAnimationCurve::Evaluate', D+'FCDAnimationCurve.cpp')], observe='Evaluate()')
prop('P10', 'Editing, merging, splitting and cloning curves preserves the animation',
 'After any sequence of adding, inserting, deleting and changing keys the keys are ordered by time as the API orders them and hold what was set. Converting, merging curves into a multi-curve, collapsing, and cloning give curves with the same value as their sources at every source key, and changing a copy never changes the original. Clips refer to exactly the curves that were added, and releasing clips or curves in any order leaves nothing dangling.',
 ['histories', 'inputs'], 'every operation sequence and every pair/triple of small curves up to a bound',
 'Tests merge one fixed pair.', [D+'FCDAnimationCurve.cpp', D+'FCDAnimationMultiCurve.cpp', D+'FCDAnimationCurveTools.cpp', D+'FCDAnimationClip.cpp', D+'FCDAnimationClipTools.cpp', D+'FCDAnimated.cpp'],
 [('FCDAnimationMultiCurve::MergeCurves', D+'FCDAnimationMultiCurve.cpp'), ('FCDAnimationCurve::AddKey', D+'FCDAnimationCurve.cpp')], observe='keys, Evaluate()')
prop('P11', 'Animated parameters and parameter lists stay bound to the right values',
 'After any edits of animatable parameters and animatable lists (insert, erase, resize, assign, clear), each animated element is still bound to the element it was created for, removed elements lose their animation, and evaluating the animation writes exactly the animated components of that parameter and nothing else. Values set with the API are read back unchanged.',
 ['histories'], 'every operation sequence up to a bound over parameter kinds and lists',
 'Tests cover a couple of list edits.', [D+'FCDParameterAnimatable.cpp', D+'FCDParameterAnimatable.hpp', D+'FCDParameterAnimatable.h', D+'FCDAnimated.cpp', U+'FUParameter.h', U+'FUParameterizable.cpp'],
 [('FCDParameterListAnimatableT', D+'FCDParameterAnimatable.hpp'), ('FCDAnimated::Evaluate', D+'FCDAnimated.cpp')], observe='list contents, animated element indices, evaluated values')
prop('P12', 'Polygon sets keep counts, offsets and index lists consistent',
 'After any sequence of adding and removing faces, holes, inputs, sources and indices, face and face-vertex counts, hole counts and per-face offsets agree with the faces that were added, each input sharing an index list sees the same indices, and all index lists stay as long as the number of face-vertices. Queries by source, semantic and set find exactly the inputs that exist, also after a source is released.',
 ['histories'], 'every edit sequence up to a bound', 'Tests build one polygon set.',
 [D+'FCDGeometryPolygons.cpp', D+'FCDGeometryPolygonsInput.cpp', D+'FCDGeometryMesh.cpp', D+'FCDGeometrySource.cpp'],
 [('FCDGeometryPolygons::AddFaceVertexCount / RemoveFace / Recalculate', D+'FCDGeometryPolygons.cpp'), ('FCDGeometryPolygonsInput', D+'FCDGeometryPolygonsInput.cpp')], observe='counts, offsets, indices')
prop('P13', 'Mesh tools preserve the geometry they process',
 'Triangulating, generating unique indices, fitting index buffers, generating texture tangents, reversing or applying a polygon set keep, for every mesh, the same face-corners with the same data of every source: corner by corner the data reached through the indices is unchanged, triangles cover the source polygons with the same winding, and translation maps are complete and correct.',
 ['inputs', 'configurations'], 'all small meshes up to a bounded number of faces, sources, sharing patterns and hole patterns',
 'Tests triangulate one mesh.', [D+'FCDGeometryPolygonsTools.cpp', D+'FCDGeometryMesh.cpp'],
 [('FCDGeometryPolygonsTools', D+'FCDGeometryPolygonsTools.cpp')], observe='corner tuples')
prop('P14', 'Skin and morph controllers keep weights, joints and targets consistent',
 'After any sequence of adding and removing influences, joints and targets, reducing influences, and changing the base, each vertex keeps the influences that were set, the joints and weights read back as they were set, reduction keeps the largest weights up to the limit and renormalises them to the sum they had, and only compatible morph targets are accepted. Generating uniqueness-based translation maps leaves each vertex with its own influences.',
 ['histories', 'inputs'], 'all small weight tables and operation sequences up to a bound', 'Tests reduce one skin.',
 [D+'FCDSkinController.cpp', D+'FCDMorphController.cpp', D+'FCDController.cpp', D+'FCDControllerInstance.cpp', D+'FCDControllerTools.cpp'],
 [('FCDSkinController::ReduceInfluences', D+'FCDSkinController.cpp'), ('FCDMorphController::AddTarget', D+'FCDMorphController.cpp')], observe='weights, joints, targets')
prop('P15', 'Libraries, entity references and instances stay consistent in any edit order',
 'After any sequence of adding entities to libraries, instancing and referencing them, retargeting, removing and releasing, each library holds exactly its live entities, references resolve to the live entity or to nothing, no instance or reference points to a released entity, and destroying the document at any moment destroys everything exactly once.',
 ['histories'], 'every operation sequence up to a bound over entity kinds', 'Tests use one order.',
 [D+'FCDLibrary.hpp', D+'FCDocument.cpp', D+'FCDEntityReference.cpp', D+'FCDEntityInstance.cpp', D+'FCDPlaceHolder.cpp', D+'FCDExternalReferenceManager.cpp', D+'FCDMaterialInstance.cpp', D+'FCDGeometryInstance.cpp'],
 [('FCDLibrary::AddEntity', D+'FCDLibrary.hpp'), ('FCDEntityReference', D+'FCDEntityReference.cpp')], observe='library contents, reference targets, destructor log')
prop('P16', 'External references resolve the same way in every load order',
 'For a set of documents with references between them, whatever the order in which they are loaded, unloaded, reloaded or exported, references to loaded documents resolve to the entity with the named identifier, references to unavailable ones stay unresolved but keep their target, and they resolve later when the document becomes available. Exporting keeps every reference pointing at the same file and entity.',
 ['histories', 'configurations'], 'all load/unload orders of up to three documents and all reference shapes', 'One test loads two files in one order.',
 [D+'FCDEntityReference.cpp', D+'FCDExternalReferenceManager.cpp', D+'FCDPlaceHolder.cpp', 'FCollada/FCollada.cpp', X+'FArchiveXML.cpp'],
 [('FCDEntityReference::LoadExternalEntity', D+'FCDEntityReference.cpp'), ('FCDPlaceHolder', D+'FCDPlaceHolder.cpp')], observe='resolved entities, exported URIs')
prop('P17', 'Standardising up-axis and units keeps the scene geometrically the same',
 'Standardising a document between up-axes and length units changes every position, direction, matrix and length by the one rotation and the one scale factor that the declared assets (of the entity, its parents, its library and its document, in that order) imply: vertices, normals, tangents, spline points, skin bind matrices, the local transform of every node whatever its transforms, camera distances and orthographic views, still or animated, at every time. Cameras, lights and emitters keep looking at what they looked at. Angles, scales without a length and other values do not change; referenced documents are converted too; afterwards all assets state the new up-axis and unit, so that standardising twice changes nothing more, and converting back restores the geometry.',
 ['inputs', 'configurations'], 'all axis pairs, unit factors and feature combinations of a bounded scene grammar', 'Not tested beyond one file.',
 [D+'FCDocumentTools.cpp'], [('FCDocumentTools::StandardizeUpAxisAndLength', D+'FCDocumentTools.cpp')], observe='world-space positions')
prop('P18', 'A clone equals its original and is independent of it',
 'Cloning any image, material, effect, geometry, force field, emitter, physics material, model or scene, scene node, animation or animation clip with any parameter values, into nothing, into a new entity of its library or into another document, gives an object with the same observable contents (names, notes, assets, extra trees, parameters, instances, sub-ids, references inside the clone pointing into the clone) and an identifier of its own; cloning leaves the original untouched. Afterwards no edit or release of one changes the other. Animation of values is not cloned with them; references to other entities keep their target.',
 ['inputs', 'histories'], 'every clonable kind with every parameter set to non-default values, followed by edits and releases in both orders', 'Few kinds are cloned by tests.',
 [D+'FCDEntity.cpp', D+'FCDObjectWithId.cpp', D+'FCDGeometryMesh.cpp', D+'FCDEffectStandard.cpp', D+'FCDMaterial.cpp', D+'FCDAnimationCurve.cpp', D+'FCDCamera.cpp', D+'FCDLight.cpp', D+'FCDExtra.cpp', D+'FCDAsset.cpp', D+'FCDController.cpp'],
 [('Clone methods', D)], observe='exported text of both objects; getters')
prop('P19', 'Numbers and lists survive conversion to text and back',
 'Every finite number and boolean that is written as text reads back as the value that was written (to the stated precision), every textual form that the XML schema allows for a number or list (signs, leading zeros, exponents, any white space between, before and after items) parses to its value, special values (INF, -INF, NaN) are kept, and parsing stops at the end of the text. List parsers return exactly the items present.',
 ['inputs'], 'all strings up to a bounded length over the alphabet of number texts, all integers and a dense grid of floating-point values', 'Tests use a few literals.',
 [U+'FUStringConversion.cpp', U+'FUStringConversion.h', U+'FUStringConversion.hpp', U+'FUStringBuilder.hpp', U+'FUStringBuilder.cpp'],
 [('FUStringConversion::ToFloat / ToInt32 / To*List', U+'FUStringConversion.hpp'), ('FUStringBuilder::append', U+'FUStringBuilder.hpp')], observe='parsed values, text')
prop('P20', 'Every text survives XML writing and reading; names become valid XML names',
 'Every string given as text content or as an attribute value, of an XML element or of any entity of a document, is written so that the document stays well formed, and reading it gives the same string back (a percent sign followed by two hexadecimal digits is the escape of one byte, and reads as that byte). Elements and attributes are read back in the order and nesting in which they were added. Names and identifiers are turned into valid XML names. Strings and string builders hold exactly the text that their operations define.',
 ['inputs'], 'all strings up to a bounded length over an alphabet with markup, control, percent, quote and multi-byte characters', 'Tests use plain ASCII names.',
 [U+'FUXmlWriter.cpp', U+'FUXmlParser.cpp', U+'FUXmlDocument.cpp', U+'FUString.h', U+'FUStringBuilder.hpp', D+'FCDObjectWithId.cpp'],
 [('FUXmlWriter', U+'FUXmlWriter.cpp'), ('FUXmlParser::XmlToString', U+'FUXmlParser.cpp')], observe='strings read back')
prop('P21', 'URIs and file paths resolve and relativise consistently',
 'Splitting a URI and putting it together again gives an equivalent URI; resolving a reference against a base follows the standard rules; making a path relative to a base and resolving it against the base gives the original back; the file-path helpers (extension, folder, clean-up) agree with the definition for every path. No path makes them crash.',
 ['inputs'], 'all URIs and paths built from a bounded alphabet of schemes, authorities, path segments, queries and fragments', 'Tests use a table of some paths.',
 [U+'FUUri.cpp', U+'FUFileManager.cpp'], [('FUUri', U+'FUUri.cpp'), ('FUFileManager', U+'FUFileManager.cpp')], observe='returned strings')
prop('P22', 'Events and error reports reach each registered handler exactly once',
 'Each handler that is registered when an event or error is raised is called exactly once for it, the latest registered first, with the right arguments, and released handlers are never called again, whatever handlers register, release or raise during the calls. Errors raised from several threads at once are all delivered, without data races or deadlock.',
 ['histories', 'schedules'], 'every operation sequence up to a bound, including operations made inside callbacks; every interleaving of small thread programs', 'Tests raise one event.',
 [U+'FUEvent.h', U+'FUError.cpp', U+'FUError.h', U+'FUErrorLog.cpp'],
 [('FUEvent0..', U+'FUEvent.h'), ('FUError::Error', U+'FUError.cpp')], observe='call log')
prop('P23', 'Containers behave like their standard counterparts for every history',
 'The vector, pointer-vector, map, set and sorting templates give, after every sequence of operations, the same contents, order, sizes, iterator results and look-up results as the standard containers; elements are constructed and destroyed exactly once each. Trees stay ordered and balanced.',
 ['histories', 'inputs'], 'every operation sequence up to a bound over a small alphabet; all insertion orders followed by all erase orders up to a bound', 'Tests run a handful of sequences; balancing and reallocation depend on history.',
 [M+'FMArray.h', M+'FMArrayPointer.h', M+'FMTree.h', M+'FMSort.h', M+'FMAllocator.h'], [('fm::vector', M+'FMArray.h'), ('fm::tree', M+'FMTree.h'), ('fm::sorter', M+'FMSort.h')], observe='contents, live element count')
prop('P24', 'Vector, matrix, quaternion and colour arithmetic satisfies its algebra',
 'For all values: matrix products are associative with the identity, inverse and transpose behave as such, composing from and decomposing to scale, rotation, translation are inverse to each other, Euler angles, axis-angle, quaternion and matrix forms of a rotation agree, spherical interpolation stays on the shortest unit arc, and vector operations satisfy their defining identities. Results for finite, non-degenerate input are finite.',
 ['inputs'], 'all elements of value grids (all axis permutations, signs, angles in fine steps, gimbal and pole cases)', 'Tests use one matrix.',
 [M+'FMMatrix44.cpp', M+'FMMatrix33.cpp', M+'FMQuaternion.cpp', M+'FMVector3.cpp', M+'FMAngleAxis.cpp', M+'FMColor.cpp', M+'FMLookAt.cpp', M+'FMSkew.cpp', M+'FMRandom.cpp'],
 [('FMMatrix44::Inverted / Decompose / Recompose', M+'FMMatrix44.cpp'), ('FMQuaternion', M+'FMQuaternion.cpp')], observe='numbers')
prop('P25', 'Bounding volumes contain exactly what they should',
 'Bounding boxes and spheres contain every point and volume included into them, overlap and containment tests agree with the geometric definition for every pair, a transformed volume contains the transformed points, and reset or empty volumes contain nothing.',
 ['inputs', 'histories'], 'all include/transform/test sequences over an integer grid', 'Not tested.',
 [U+'FUBoundingBox.cpp', U+'FUBoundingSphere.cpp'], [('FUBoundingBox', U+'FUBoundingBox.cpp'), ('FUBoundingSphere', U+'FUBoundingSphere.cpp')], observe='booleans')
prop('P26', 'Extra trees and parameters behave as the ordered tree that was built',
 'After any sequence of adding, renaming, moving, animating, cloning and releasing types, techniques, nodes and attributes of an extra tree, queries by name and type find the first matching live object or nothing, order is insertion order, and contents are what was set last.',
 ['histories'], 'every operation sequence up to a bound', 'One test builds one tree.',
 [D+'FCDExtra.cpp', D+'FCDExtra.h'], [('FCDExtra / FCDETechnique / FCDENode', D+'FCDExtra.cpp')], observe='tree contents')
prop('P27', 'Every enumerated value maps to its own text and back',
 'For each enumeration with textual forms, every value other than the unknown one converts to a text that converts back to the same value, distinct values have distinct texts, and every other text converts to the unknown or default value.',
 ['inputs'], 'every value of every enumeration, and every text at edit distance one of the valid texts', 'Only used values are covered by tests.',
 [U+'FUDaeEnum.cpp', U+'FUDaeEnum.h', U+'FUDaeEnumSyntax.h', D+'FCDEffectPassState.cpp'], [('FUDaeInterpolation, FUDaeSemantic, ...', U+'FUDaeEnum.cpp')], observe='strings, enum values')
prop('P28', 'Codecs: base64, checksums and dates are exact',
 'Decoding an encoded byte block gives the block back for every length and content, invalid encoded text is rejected without out-of-range access, checksums of equal data are equal, of a changed data differ as the CRC defines, and date texts in the ISO form convert to the date and back.',
 ['inputs'], 'all byte blocks up to a bounded length over a byte alphabet; all dates over a grid', 'Tests use single examples.',
 [U+'FUBase64.cpp', U+'FUBase64.h', U+'FUCrc32.cpp', U+'FUDateTime.cpp'], [('FUBase64', U+'FUBase64.cpp'), ('FUCrc32', U+'FUCrc32.cpp'), ('FUDateTime', U+'FUDateTime.cpp')], observe='bytes, strings')
prop('P29', 'Splines keep their control points and convert without changing shape',
 'After any sequence of adding and removing control points, tangents, weights and knots, a spline reports exactly what was set, validity is reported as defined, and conversion between linear, Bezier and NURBS representations keeps the described curve.',
 ['histories', 'inputs'], 'all small splines over a grid and all edit sequences up to a bound', 'One test builds one spline.',
 [D+'FCDGeometrySpline.cpp', D+'FCDGeometrySpline.h'], [('FCDSpline / FCDBezierSpline / FCDNURBSSpline', D+'FCDGeometrySpline.cpp')], observe='control points, evaluated curve points')

LEVEL_NOTES = {}
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p, _ in P: f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, note in P:
        i = p['id']
        if os.path.exists('%s/checks/%s.cpp' % (V, i)):
            lvl = 'exploration' if 'mc::level = "exploration"' in open('%s/checks/%s.cpp' % (V, i)).read() else 'fault_enumeration' if 'mc::level = "fault_enumeration"' in open('%s/checks/%s.cpp' % (V, i)).read() else 'model_checking'
            checks.append(dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='python3 run.py %s --thorough' % i,
                technique='explicit-state / stateless model checking: depth-first enumeration of every choice sequence of a bounded space, executed on the real library (ASan/UBSan build) in lock step with a reference model',
                level=lvl, level_note=note or 'exhaustive within the bounds recorded in DESIGN.md and the evidence file'))
        else: na.append(dict(property=i, reason='no check has been built for it yet'))
    json.dump(dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na,
        notes='run.py builds the library from /repo into /verif/build (git-ignored) with clang ASan+UBSan and runs one check. No hooks in /repo are needed.'), open(V + '/MANIFEST.json', 'w'), indent=1)
main()
