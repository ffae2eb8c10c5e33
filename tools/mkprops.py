import json
P=[]
def p(id,title,st,over,q,why,files,state,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
C='src/cycle_map.rs';Q='src/partial_cycle_map.rs';G='src/group_map.rs';O='src/optionals.rs';U='src/utils.rs'
HI=['inputs','histories','configurations']
T_hash="Tests use one default hasher, a handful of keys and short fixed call sequences; they never see two different keys with the same 64-bit hash, and never all reachable states."
cst=[('left_set / right_set','one hash table per side; an entry holds the item, its partner\'s hash and the pair id',C),('counter','the next pair id; above every id in use',C)]
pst=[('left_set / right_set','one table per side; an entry holds the item, Option of the partner\'s hash, and an id; equal ids on both sides mean paired',Q),('counter','the next id',Q)]
gst=[('left_set','left entries: item, right partner\'s hash and id, own id',G),('right_set','right entries: item, own id and the set (left hash, left id) of its group',G),('left_counter / right_counter','next ids',G)]
p('C01','CycleMap is a one-to-one matching that both sides agree on',
 "After any sequence of public operations a CycleMap holds a one-to-one matching: every left item has exactly one right partner and the reverse, no two left (or right) items are equal, and its length is the number of pairs. Every query answers from that one matching: get_right, get_left, are_paired, contains_left and contains_right agree with each other and with iteration, for owned and borrowed key forms. This holds for every lawful key type and every hasher, including one that gives different items the same hash.",
 HI,'every reachable map state, every key type whose Hash, Eq and Borrow agree, every BuildHasher (collisions included)',T_hash,[C,U],cst,
 [('remove_entry/get by hash plus partner id, never by hash alone','hash_and_id, equivalent_key, get_right, get_left, are_paired')],['CycleMap::{get_left,get_right,are_paired,contains_left,contains_right,len,is_empty}'])
p('C02','CycleMap insert and remove change exactly the pairs they name',
 "insert(l, r) leaves the map with the pair (l, r) plus every earlier pair that contains neither l nor r, and returns exactly the evicted pairs: SomeLeft for the one that held l only, SomeRight for the one that held r only, SomeBoth for two different ones; evicting one pair that held both l and r returns it once, as SomeLeft. remove(l, r) removes and returns that pair only when l and r are paired with each other; remove_via_left and remove_via_right remove and return the pair holding the given item; when nothing matches they change nothing and return None. Returned items are the stored ones.",
 HI,'every map state and every pair of arguments, equal to, colliding with, or absent from the contents',T_hash+" No test checks that all the other pairs are untouched.",[C],cst,
 [('insert','insert, remove, remove_via_left, remove_via_right')],['return values; map contents before and after'])
p('C03','CycleMap swaps replace one item and keep its partner',
 "swap_left(old, new) replaces old by new in its pair, keeping the right partner, and evicts and returns the pair that new was already in; it returns the replaced item as SomeLeft, an evicted pair as SomeRight, both as SomeBoth, and returns Neither and changes nothing when old is absent; swap_right mirrors it. The checked variants act only when old is paired with the expected partner, and otherwise return Neither and change nothing. The or_insert variants insert the given partner with new when old is absent, and report what that evicted.",
 HI,'every map state and all choices of old, new, expected, to_insert, including new equal to old, new in another pair, old absent','Each argument overlap is a separate case; tests cover a few with distinct hashes and do not check the frame.',[C],cst,
 [('eviction of new before relinking old\'s partner','swap_left, swap_left_eq_check, swap_left_or_insert, swap_left_checked and the right mirrors')],['return values; map contents before and after'])
p('C04','CycleMap retain, drain and drain_filter remove exactly the right pairs',
 "retain calls the closure once on each pair and removes exactly those for which it returns false. drain yields every pair exactly once and leaves the map empty and usable, also when it is dropped part-way; drain_filter calls the closure once on each pair and removes exactly those for which it returns true (yielding them until it is dropped, and removing the rest on drop). clear empties the map.",
 HI,'every map state, every predicate (stateful ones included), every point at which the draining iterator is dropped','Tests use two predicates and always run the iterators to the end, on collision-free maps.',[C],cst,
 [('retain; DrainIter and DrainFilterIter with their Drop impls','retain, drain, drain_filter, clear, DrainIter::next/drop, DrainFilterInner::next')],['map contents during and after'])
p('P01','PartialCycleMap keeps distinct items and a consistent partial matching',
 "After any sequence of public operations a PartialCycleMap holds distinct left items, distinct right items, and a matching in which each item has at most one partner. Every query answers from that one matching: get_right, get_left, are_paired, is_left_paired, is_right_paired, contains_left, contains_right, len_left, len_right and is_empty agree with each other and with iteration. This holds for every lawful key type and every hasher, collisions included.",
 HI,'every reachable map state, every lawful key type, every BuildHasher',T_hash,[Q,U],pst,
 [('equal id on both sides plus Some(partner hash)','get_left, get_right, are_paired, is_left_paired, is_right_paired, hash_and_id')],['PartialCycleMap query methods'])
p('P02','PartialCycleMap insert, pair and unpair have exactly their stated effect',
 "insert(l, r) leaves l and r paired with each other, detaches nothing else, and returns what it evicted: the old entry equal to l with its partner, and the old entry equal to r with its partner; insert_left and insert_right replace an equal item by a new unpaired one and return the old one with its partner. pair joins two present unpaired items and otherwise changes nothing and returns false; pair_forced joins two present items whatever their state, leaving their former partners in the map unpaired, and pair_forced_remove removes those former partners and returns them. unpair splits exactly a present pair, keeping both items; nothing else in the map changes in any of these.",
 HI,'every map state and all arguments (present, absent, paired together, paired elsewhere, unpaired, colliding)',T_hash,[Q],pst,
 [('insert*/pair*/unpair','insert, insert_left, insert_right, pair, pair_forced, pair_forced_remove, unpair')],['return values; map contents before and after'])
p('P03','PartialCycleMap removals remove exactly the named items',
 "remove(l, r) removes and returns the two items only when they are paired with each other. remove_left and remove_right remove and return only the given item and leave its partner in the map, unpaired; remove_via_left and remove_via_right remove and return the item together with its partner if it has one. When nothing matches they return nothing and change nothing, and no other item or pairing is affected.",
 HI,'every map state and every argument',T_hash,[Q],pst,[('removals','remove, remove_left, remove_right, remove_via_left, remove_via_right, remove_via_hashes_and_id')],['return values; map contents before and after'])
p('P04','PartialCycleMap swaps replace one item and keep its partner',
 "swap_left(old, new) replaces old by new, keeping old's partner (or its being unpaired), evicts the entry new was already in together with its partner, returns old as SomeLeft and the evicted entry as SomeRight or both as SomeBoth, and changes nothing and returns Neither when old is absent; swap_right mirrors it. The checked variants act only when old is paired with the expected partner, and otherwise return Neither and change nothing. The or_insert variants insert new paired with the given partner when old is absent, and never panic.",
 HI,'every map state and all choices of old, new, expected, to_insert','Each overlap of arguments and pairing state is a separate case; tests cover a few.',[Q],pst,
 [('swaps','swap_left, swap_left_checked, swap_left_or_insert, swap_left_eq_check and the right mirrors')],['return values; map contents before and after'])
p('P05','PartialCycleMap retain, drain and drain_filter remove exactly the right items',
 "retain_paired removes exactly the pairs, retain_unpaired exactly the unpaired items (of both sides), and retain exactly the pairs and unpaired left items, for which the closure returns true; each is shown once to the closure. drain yields every pair and every unpaired item of both sides exactly once and leaves the map empty and usable, also when dropped part-way; drain_filter shows the closure each pair and each unpaired item once and removes exactly those for which it returns true (yielding them until it is dropped, and removing the rest on drop). clear empties the map.",
 HI,'every map state, every predicate, every point at which the draining iterator is dropped','Tests use a few predicates on collision-free maps and run iterators to the end.',[Q],pst,
 [('retain*, DrainIter, DrainFilterIter','retain, retain_paired, retain_unpaired, drain, drain_filter, clear')],['map contents during and after'])
p('G01','GroupMap links every left item to one group and groups list exactly their members',
 "After any sequence of public operations (other than re-inserting an existing pair with insert or extend, a recorded finding) a GroupMap holds distinct left items and distinct right items, every left item belongs to exactly one present right item, and a right item's group is exactly the left items that name it. get_right, get_left_iter, are_paired, is_right_paired, contains_left, contains_right, len_left, len_right and is_empty answer from that one relation and agree with iteration. This holds for every lawful key type and every hasher, collisions included.",
 HI,'every reachable map state, every lawful key type, every BuildHasher',T_hash,[G,U],gst,
 [('left entries carry the right id, right entries the set of left ids','insert, insert_left, get_right, get_left_iter, are_paired')],['GroupMap query methods'])
p('G02','GroupMap insert and pair have exactly their stated effect',
 "insert(l, r) leaves l in the group of r, adding either if absent and moving l out of its old group; insert_left does the same only if r is present (and otherwise changes nothing), returning the replaced left item; insert_right replaces an equal right item by a new one with an empty group and returns the old one with its members, which leave the map; insert_remove first removes the old l and the old r with its whole group, and returns both. pair moves a present l into the group of a present r, and otherwise changes nothing and returns false. No other item or membership changes.",
 HI,'every map state and all arguments (re-inserting an existing pair through insert excepted)',T_hash,[G],gst,
 [('inserts','insert, insert_remove, insert_left, insert_right, pair')],['return values; map contents before and after'])
p('G03','GroupMap removals remove exactly the named items and groups',
 "remove_left removes and returns only that left item, taking it out of its group and leaving the right item. remove_right removes and returns the right item together with exactly its members. remove(l, r) does that for r only when l is a member of r; when nothing matches they return None and change nothing, and no other item or membership is affected.",
 HI,'every map state and every argument',T_hash,[G],gst,[('removals','remove, remove_left, remove_right, remove_via_hash_and_id')],['return values; map contents before and after'])
p('G04','GroupMap swap_right moves a whole group to the new right item',
 "swap_right(old, new) evicts an existing right item equal to new together with its members, puts all of old's members into new's group and keeps old with an empty group; swap_right_remove does the same but removes and returns old. With new equal to old the group keeps its members and stays findable from both sides. With old absent, swap_right acts as insert_right(new) and swap_right_remove changes nothing or does the same, returning None; nothing else changes.",
 HI,'every map state and all choices of old and new','Membership must be repointed for every group size and every overlap of old and new; tests try one.',[G],gst,
 [('re-pointing of r_id for every member','swap_right, swap_right_remove')],['return value; map contents before and after'])
p('G05','GroupMap retains remove exactly the selected items',
 "retain_paired shows each left item with its right item to the closure once and removes exactly the left items for which it returns true, keeping every right item and every other membership. retain_unpaired shows each right item with an empty group once and removes exactly those for which it returns true. clear empties the map.",
 HI,'every map state and every predicate','Tests use one predicate each and do not look the survivors up from both sides.',[G],gst,[('retain','retain_paired, retain_unpaired, clear')],['map contents before and after'])
p('X01','Map equality is equality of contents',
 "Two CycleMaps compare equal exactly when they hold the same pairs, and two GroupMaps exactly when they hold the same left items, the same right items and the same memberships, whatever the histories, ids, capacities and hashers. For PartialCycleMap, maps with the same contents compare equal, and a == b only when the two hold equally many left items or equally many right items, every pair of a is also a pair of b, and no unpaired left item of a is paired in b (that it is no stricter than this is a recorded finding).",
 HI,'every pair of reachable maps, with equal or different hashers','Equality must hold across different histories and hash seeds; tests compare a few maps built the same way.',[C,Q,G],[],[('PartialEq impls','eq')],['== and != on maps'])
p('X02','Iterators yield each item exactly once and report the exact remaining count',
 "iter, iter_left and iter_right (and iter_paired and iter_unpaired where they exist) yield every item or pair they stand for exactly once, each with its true partner, and nothing else. len and size_hint report exactly how many items are still to come at every point, and a clone of an iterator continues with exactly the remaining items. (PartialCycleMap::iter not yielding unpaired right items is a recorded finding.)",
 HI,'every map state, every point of the iteration','Tests count the items of a few full iterations.',[C,Q,G],[],[('iterator structs','Iter, SingleIter, PairedIter, UnpairedIter, PairIter, LeftIter, RightIter')],['next, len, size_hint, clone of the iterators'])
p('X03','OptionalPair conversions and maps are lossless',
 "Converting between OptionalPair and (Option, Option) or Option of that, in either direction, keeps exactly which sides are present and their values, and a round trip gives the original back. get_left, get_right, is_none, is_some, map, map_left, map_right, convert and cloned act on exactly the sides that are present and never swap, drop or duplicate one.",
 ['inputs'],'every variant and every contained value','Tests check some conversions with some values, not all variants of all methods.',[O],[],[('From impls and the OptionalPair methods','From, is_none, is_some, get_left, get_right, convert, map, map_left, map_right, cloned')],['return values'])
p('X04','A serialized CycleMap deserializes to an equal map',
 "Serializing a CycleMap emits exactly its pairs, each once, as a sequence of its length, and deserializing inserts every element read. Deserializing what was serialized therefore yields a map equal to the original, whatever hasher either side uses, and an element that fails to parse fails the whole deserialization.",
 HI,'every map, every serde data format','The one test round-trips one map through one format.',['src/serde.rs'],[],[('Serialize and Visitor impls','serialize, deserialize, visit_seq')],['serde output and input'])
p('X05','Cloning and capacity operations never change a map\'s contents',
 "A clone holds the same items and pairings as the original and the two are independent: every lookup works on it from both sides, and later changes to one do not show in the other. reserve, try_reserve, shrink_to and shrink_to_fit change neither contents nor lookups, capacity is at least the length, and at least what was reserved or asked for; a new map is empty.",
 HI,'every reachable map of the three kinds, every capacity argument','Tests resize one or two maps and only look at capacity.',[C,Q,G],[],[('clone, reserve, shrink','clone, reserve*, try_reserve*, shrink_to*, with_capacity*, new, default')],['contents and capacity before and after'])
p('X06','No public operation panics',
 "No public operation of the three maps or their iterators panics (or reaches an unwrap, index or unreachable that fails) on any reachable map, whatever its arguments, provided the key types' and closures' own code does not panic, memory suffices, and no existing pair was re-inserted into a GroupMap (a recorded finding). Operations that find nothing to do return their empty result.",
 HI,'every reachable map state and every argument',"Every unwrap relies on the two tables agreeing in all reachable states; tests visit a few.",[C,Q,G,O],[],[('unwrap / unreachable! calls','all public methods')],['panics'])
p('X07','extend and collect equal inserting one by one, in order',
 "Extending a map with a sequence gives exactly the map obtained by inserting its elements one at a time, in order (a single left, right, or pair as the element says), whatever the map held before; collecting gives that starting from an empty map. Existing entries not displaced by an inserted element stay.",
 HI,'every map and every finite sequence, with repeated and conflicting elements','Tests extend with fresh, conflict-free ranges.',[C,Q,G],[],[('Extend and FromIterator impls','extend, from_iter')],['map contents'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
