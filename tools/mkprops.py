#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": observe, "hook_needed": hook}})

W="pkg/world/world.go"; T="pkg/world/tree.go"; I="pkg/world/item.go"; R="pkg/world/rel.go"
C="pkg/app/command.go"; A="pkg/app/main.go"; G="pkg/grammar/main.go"; GP="pkg/grammar/grammar.peg"; GG="pkg/grammar/grammar.peg.go"
S="pkg/persistence/main.go"; E="pkg/errors/main.go"; WA="cmd/wasm/main.go"

prop("C01","Containment is always a forest over exactly the existing items",
 "After any history of commands and API calls, every existing item sits in exactly one place: at the top level, or directly inside exactly one other existing item, and no item is inside itself through any chain. The parent view, the components view, the containment query and the world's text all describe that same forest. An item that was deleted appears in none of them.",
 ["histories"],"every finite sequence of create/nest/free/delete/set/undo/redo operations, through the command language or the world API, over any set of identifiers",
 "The tests build one nesting of depth one and never move, free or delete a nested item; parent links and child sets are kept separately and only diverge after particular sequences of moves.",
 [T,W],[("tree nodes hold both a parent pointer and a component set","pkg/world/tree.go:tree"),("moving a node between component sets","pkg/world/tree.go:AddOrMove"),("handing children to the grandparent","pkg/world/tree.go:Delete")],
 ["World.Parent / Components / ItemParent / ItemComponents / In","World.String"],
 [("Tree","who contains whom",W),("Items","the existing items",W)])
prop("C02","Relationships join existing items, one per ordered pair",
 "After any history, both ends of every relationship are existing items and there is at most one relationship for each ordered pair of items. Relationships of different pairs never share an entry, whatever characters the identifiers contain, so creating, changing or deleting one never touches another.",
 ["histories","inputs"],"every sequence of item and relationship operations, including deletes and re-creates of either end, and all identifiers the language can spell (including ones containing the separator)",
 "The tests create a chain of relationships once and never delete an item or use identifiers that contain punctuation.",
 [W,R],[("relationship key built from both ids","pkg/world/rel.go:relIdFromIds"),("cascade on item delete","pkg/world/world.go:ItemDelete")],
 ["World.RelList","World.RelFetch strict","rel? and rel list replies"],[("Rels","relationships by pair",W)])
prop("C03","Create adds exactly one thing with exactly the given attributes",
 "Creating an item or relationship that does not exist adds exactly that one, with exactly the given attributes and all others empty, a new item being at the top level, and changes nothing else. Creating one that already exists (create, or the create-or-fetch form) changes nothing at all and hands back the existing one. Creating a relationship with a missing end, or anything with an empty identifier, adds nothing and is reported as an error.",
 ["histories","inputs"],"every create, create-or-fetch and create-or-set of items and relationships, from every reachable world, with every attribute subset the language can spell",
 "The only creates in the tests have no attributes and never collide with an existing item.",
 [W,C],[("ItemCreate / RelCreate","pkg/world/world.go"),("create commands","pkg/app/command.go:ItemCreateCommand,RelCreateCommand,...CreateOrFetch,...CreateOrSet")],
 ["App.Exec replies","World.ItemFetch, RelFetch","WorldWithItem.Item, WorldWithRel.Rel"])
prop("C04","Set and clear change exactly the named attributes",
 "Setting attributes (set, or create-or-set on something that exists) gives exactly the named attributes of exactly the named item or relationship the given values, and clearing gives the named ones their empty value. Every other attribute, every other item and relationship, and all placements stay as they were. A set or clear of something that does not exist, or of an unknown item type, changes nothing and is reported as an error.",
 ["histories","inputs"],"every non-empty subset of attributes and every value the language can spell (all item types, booleans, quoted text, the empty string), on every reachable world",
 "No test executes a set or clear; only their parsing is tested.",
 [W,C,I,R],[("itemSet / relSet","pkg/world/world.go"),("ItemParamsFromInput / RelParamsFromInput","pkg/world/item.go, pkg/world/rel.go")],
 ["World.ItemFetch, ItemList, RelFetch, RelList","App.Exec replies"])
prop("C05","Nest and free move whole subtrees and refuse impossible moves",
 "Nesting items puts each of them, together with everything inside it, directly inside the named parent; freeing puts them at the top level; attributes, relationships and all other placements do not change. A nest under a missing parent or under the item's own contents, or of a missing item, leaves that item where it was and is reported as an error, while the other items named in the same command are still moved. Nesting an item in itself or where it already is changes nothing.",
 ["histories","inputs"],"every list of items and every target, from every reachable forest, in any order of moves",
 "One test nests five top-level items one level deep; re-nesting, freeing, cycles and missing targets are never run.",
 [T,W,C],[("AddOrMove","pkg/world/tree.go"),("Nest / Free","pkg/world/world.go"),("nest and free commands","pkg/app/command.go")],
 ["World.Parent / Components","nest and free replies"])
prop("C06","Delete removes exactly one item or relationship and hands children up",
 "Deleting an item removes that item and exactly the relationships that start or end at it, and moves the items directly inside it to the place it was in; nothing else changes. Deleting a relationship removes exactly that one. Deleting something that does not exist changes nothing and succeeds.",
 ["histories"],"every delete from every reachable world: leaf, inner and top-level items at any depth, with any relationships including self-relationships and both directions of a pair",
 "Delete is never executed by a test.",
 [T,W,C],[("ItemDelete / RelDelete","pkg/world/world.go"),("tree Delete","pkg/world/tree.go"),("delete commands","pkg/app/command.go:ItemDeleteCommand,RelDeleteCommand")],
 ["World state before and after item delete / rel delete"])
prop("C07","Every read view shows the same current state",
 "At every moment all ways of reading the world agree: fetching one item, listing items, the components and parent of an item, the items at the ends of a relationship, fetching and listing relationships, and the world's text all show the same items, with the same current attributes, the same placement and the same relationships. An attribute change is visible in all of them at once.",
 ["histories"],"every reachable world and every read operation, right after every kind of operation",
 "Each test reads through one view only, and never after an attribute changed.",
 [W,T,R],[("items are copied into the tree and into relationships","pkg/world/world.go:ItemSet, RelCreate; pkg/world/tree.go:newTree")],
 ["ItemFetch, ItemList, ItemParent, ItemComponents, RelFetch, RelList, RelTo, RelFrom, World.String"],
 [("Items / Tree / Rels","three copies of the same item",W)])
prop("C08","Queries answer exactly and never change anything",
 "Existence, containment, component listing, item and relationship listing (with an optional maximum count), relationship fetch, and the relationships-to and relationships-from queries return exactly what the current state implies. The relationship queries also count relationships of items contained in the named ones, unless the strict flag restricts them to exact matches; the containment query counts any depth. No query changes the world, and a query about a missing item yields false, nothing, or a not-found error.",
 ["histories","inputs"],"every query with every argument and flag, on every reachable world",
 "No test runs a query; only their parsing is tested.",
 [W,T,C],[("RelFetch / RelTo / RelFrom / In / Components","pkg/world/world.go"),("GetDescendantIds, Has, Find","pkg/world/tree.go"),("query commands","pkg/app/command.go")],
 ["App.Exec replies of fetch, list, in, in?, to?, from?, item?, rel?","the same queries through the world API"])
prop("C09","Undo restores exactly the world before the command",
 "Undoing the most recent command restores exactly the world as it was before that command ran: the same items with the same attributes, the same containment, the same relationships. This holds for every kind of command, including deletes of items with contents and relationships, moves of several items, and commands that failed or changed nothing, and so any run of undos steps back through all earlier worlds in reverse order.",
 ["histories"],"every command from every reachable world, and every sequence of commands followed by any number of undos",
 "Undo is never called by a test.",
 [C,A],[("Undo of every command","pkg/app/command.go"),("undo","pkg/app/main.go")],
 ["world state before a command and after its undo"],[("commands / commandsIdx","executed commands and position",A)],
 "undo and redo are unexported: an exported accessor under the verif build tag")
prop("C10","History is a linear log: redo replays, a new command discards the redo tail",
 "The history lists exactly the commands whose effects make up the current world, in order. Undo steps back by one command and reports more to undo exactly while commands remain; redo re-applies exactly the most recently undone command, giving the same world as before that undo, and is possible exactly while undone commands remain. Executing a new command after undos discards the undone ones.",
 ["histories"],"every interleaving of executed commands (mutating, query and failing), undos and redos",
 "Undo, redo and the history are never exercised by a test.",
 [A],[("exec / undo / redo","pkg/app/main.go"),("History / CanUndo / CanRedo","pkg/app/main.go")],
 ["App.History, CanUndo, CanRedo","world state after each step"],[("commands / commandsIdx","executed commands and position",A)],
 "undo and redo are unexported: an exported accessor under the verif build tag")
prop("C11","A request that is refused changes nothing",
 "Input that is not a command of the language is answered with an error reply of status 400 and changes neither the world nor the history. A command about a single thing that is answered with an error leaves the world exactly as it was. No input, valid or not, makes the application panic or hang, and the application keeps working afterwards.",
 ["inputs","histories"],"every input line (arbitrary bytes, truncated or mutated commands, replies and world text used as input) on every reachable world",
 "The tests send one valid command to the application.",
 [A,C,GG],[("parse and dispatch","pkg/app/main.go:Exec, pkg/app/command.go:InputToCommand")],
 ["App.Exec reply","world and history before and after"])
prop("C12","Replies are well formed and describe the resource as it now is",
 "Every reply to an input line is itself a sentence of the reply language: a successful one parses as a response with status 200 whose object part is exactly the affected or requested items, relationships, truth value or world, with their current content. A refused one parses as a status with the error's code and its message.",
 ["histories","inputs"],"every command on every reachable world, with every identifier and attribute value the language can spell",
 "One reply, that of the empty world, is checked.",
 [A,C,I,R,E,GG],[("okString","pkg/app/main.go"),("Item.String, Rel.String, World.String","pkg/world"),("TopolithError.String","pkg/errors/main.go")],
 ["App.Exec reply text","grammar.Parse of the reply"])
prop("C13","A world's text reproduces the world",
 "Writing a world as text and reading that text back gives an equal world: the same version, id, name and description, the same items with all their attributes, the same containment to any depth, the same relationships with all their attributes. Writing it again gives text with the same content, and the world that was written is not changed.",
 ["histories","inputs"],"every reachable world whose identifiers and values can be spelled in the language, including empty values, values with spaces and punctuation, and identifiers that look like words of the format",
 "The round trips in the tests have no item attributes, one-word names and depth two.",
 [W,T,I,R,GG],[("World.String / FromString","pkg/world/world.go"),("Tree.String","pkg/world/tree.go"),("WorldObject and Tree rules","pkg/grammar/grammar.peg")],
 ["world.FromString(w.String()) through every read view"])
prop("C14","Text that is not one complete world is refused",
 "Reading a world from text that is not a complete world (cut off at any point, a command, a reply, a status, a bare tree, arbitrary text) gives an error and no world. In particular no proper prefix of a world's text is accepted as a smaller world.",
 ["inputs","crash_points"],"every proper prefix of the text of every reachable world, every sentence of the language that is not a world, and damaged world text with a missing section",
 "No test reads invalid world text.",
 [W,GG],[("FromString","pkg/world/world.go"),("WorldObject rule","pkg/grammar/grammar.peg")],
 ["world.FromString error and result"])
prop("C15","Saved worlds load back by name, independent of each other and of memory",
 "Loading a name returns a world equal to the one most recently saved under that name, and an error if none was. Saving or changing one world never alters what is stored under another name, and changing a world in memory, saved or loaded, changes no stored world until it is saved. The listing contains exactly the names saved.",
 ["histories"],"every interleaving of saves, loads, listings and in-memory changes over several worlds and names",
 "One save followed by one load of one world.",
 [S,W],[("Save / Load / ListWorlds","pkg/persistence/main.go")],
 ["Persistence.Save, Load, ListWorlds"],[("directory","where the world files are",S)])
prop("C16","A save that fails part-way keeps the previously saved world",
 "If saving a world fails or the process dies at any point during the save, loading that name afterwards gives either the world saved before or the new one, complete; never an error or a partial world. A failing save is reported as an error, never alters other saved worlds and never appears in the listing under a new name.",
 ["crash_points","fault_sequences"],"a write error or process death at every file-system operation and after every number of written bytes of a save, over an existing and over no previous version",
 "No test makes a save fail.",
 [S],[("Save","pkg/persistence/main.go")],
 ["files left by a failed or killed save, read through Load and ListWorlds"])
prop("C17","Equality means same content, however it was built",
 "Two worlds, trees, items or relationships compare equal exactly when they have the same content: the answer does not depend on the order in which they were built or on the run, it is symmetric, everything equals itself, and any single difference in an attribute, placement, item, relationship or description makes them unequal.",
 ["histories","inputs"],"every pair of reachable worlds, trees, items and relationships that are equal or differ in one respect, each built in different orders",
 "Equality is only ever used on two copies with the same build order and distinct relationship sources.",
 [W,T,I,R],[("WorldEqual","pkg/world/world.go"),("TreeEqual","pkg/world/tree.go"),("ItemEqual, RelEqual","pkg/world/item.go, pkg/world/rel.go")],
 ["WorldEqual, TreeEqual, ItemEqual, RelEqual"])
prop("C18","Commands mean the same however they are spelled",
 "Parsing a command yields exactly the verb, resource type, identifiers, attributes and flags that were written, whatever mix of bare and quoted words, amount of white space between words, singular or plural resource word, attribute order, or one- or two-dash flags is used. An attribute written more than once takes its last value, and quoted text is taken literally including spaces and punctuation.",
 ["inputs"],"every command form with identifiers, values and flags drawn from everything the language can spell, in every spelling",
 "The tests parse 30 fixed lines, with one quoted identifier and no white space variation.",
 [GG,GP,G],[("generated parser and actions","pkg/grammar/grammar.peg.go"),("cleanString","pkg/grammar/main.go")],
 ["grammar.Parse result","the effect of the spelled command through App.Exec"])
prop("C19","The web bridge reports what the application answered",
 "A command sent through the browser bridge has the same effect as one executed directly, and the bridge's reply carries the application's reply text unchanged, the same status code, the same object, and an error entry exactly when the status is not 200. A call with the wrong number of arguments changes nothing.",
 ["histories","inputs"],"every command sequence sent through the bridge, valid and invalid",
 "The bridge is excluded from the test build and never run.",
 [WA],[("topolithSend and toReply","cmd/wasm/main.go")],
 ["topolithSend replies in a js/wasm host"])
prop("C20","Worlds in one process are independent",
 "Operations on one world, application or tree never change another one in the same process, whether they were created empty, by reading text, by loading, or from empty tree text. An empty tree stays empty.",
 ["histories"],"every interleaving of operations on several worlds, applications and trees obtained in every way the API offers",
 "Each test uses one world, or two that are only read.",
 [T,W,A],[("package-level empty tree","pkg/world/tree.go:emptyTree"),("worlds own their maps and tree","pkg/world/world.go:CreateWorld")],
 ["state of all other worlds and trees before and after an operation on one"])
prop("C21","A tree's text reproduces the tree and its items",
 "Writing a tree (a whole one or the part under some item) as text and reading it back gives an equal tree together with every item in it, attributes included. Tree text in which one item occurs twice, or that is incomplete, is refused. Operations on a tree (add, move, find, delete, descendants, containment) follow the same forest rules as the world's containment.",
 ["histories","inputs"],"every tree reachable by adds, moves and deletes, with every item content the language can spell, read at every node",
 "One tree of three bare items is round-tripped, comparing only the first level.",
 [T,I,GG],[("TreeFromString / String / convertNodeToTree","pkg/world/tree.go"),("Tree rule","pkg/grammar/grammar.peg")],
 ["TreeFromString, Tree.String and the Tree methods"])
prop("C22","Error values are immutable and their text carries code and message",
 "Deriving a new error from an existing one (code, description, data, wrapped errors, cleared data) never changes the existing one or any other error derived from it. An error's text parses as a status with that error's code and a message made of its description and text, with or without wrapped errors, and unwrapping yields the first wrapped error.",
 ["histories","inputs"],"every derivation history over error values, and every code and text the language can spell",
 "One error value is parsed and only its statement type is checked.",
 [E,"pkg/errors/codes.go",GG],[("builder methods on values","pkg/errors/main.go"),("StatusObject rule","pkg/grammar/grammar.peg")],
 ["TopolithError fields and String after each derivation"])
prop("C23","An item's or relationship's text reads back as exactly that",
 "Writing one item, or one relationship, as text and reading that text back gives an equal one, with the same identifiers and attributes; a relationship is read in a world that holds both its ends, whose current content it shows. Text that is not exactly one item (for an item) or one relationship between existing items (for a relationship) - another command, a reply, a status, a tree, a world, arbitrary text - is answered with an error, never with a made-up value or a panic. Reading changes no world.",
 ["inputs"],"every item and relationship the language can spell, and every text that is not one",
 "Three items and one relationship are read back; no other text is ever given to the readers.",
 [I,R,G],[("ItemFromString, Item.String","pkg/world/item.go"),("RelFromString, Rel.String","pkg/world/rel.go")],
 ["ItemFromString, RelFromString and the String methods"])
prop("C24","The console answers each line as the application does",
 "A line typed into the interactive console that is a command has exactly the effect of giving that command to the application, and the application's reply is printed, unchanged and on lines of its own, before the next prompt. A line that is not a sentence of the language is reported, changes nothing, and an empty line does nothing. The console stays usable after every line and ends when told to.",
 ["histories","inputs"],"every sequence of lines typed into the console",
 "The console is never run by a test.",
 ["cmd/cli/main.go"],[("executor","cmd/cli/main.go"),("main","cmd/cli/main.go")],
 ["standard output of the console run in a terminal"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
