"""Which rules decide which property."""
from .rules import batch, bloom, bytes as byterules, integrity, memiter, merge, buffers, durab, errors, fileops, locks, order, ordering, proto, serializer, skiplist, skinit, skorder, tree, workers

RULES = {}
for _p in ("E01", "E02", "E03", "E04", "E05", "E06"):
    RULES[_p] = [errors.run]
RULES["F01"] = [fileops.handle_checks]
RULES["F02"] = [fileops.failures]
RULES["F03"] = [fileops.performed, fileops.positions, fileops.arguments]
RULES["F04"] = [fileops.open_contract]
RULES["F05"] = [fileops.narrowing]
RULES["S01"] = [serializer.bounds]
RULES["S02"] = [serializer.byte_order]
RULES["B01"] = [bloom.filter_rule, bloom.bitmap_rule, byterules.hash_rule]
RULES["D01"] = [order.sync_rule]
RULES["D02"] = [order.written_rule]
RULES["D03"] = [durab.flush_rule]
RULES["D04"] = [order.manifest_rule, order.counted_rule]
RULES["D05"] = [order.reorg_rule]
RULES["D06"] = [durab.commit_rule]
RULES["D07"] = [durab.rollback_rule]
RULES["B02"] = [durab.filter_rule]
RULES["K01"] = [skiplist.refs_rule]
RULES["K02"] = [skiplist.claims_rule]
RULES["K03"] = [skiplist.locks_rule]
RULES["K04"] = [skiplist.safe_rule]
RULES["K06"] = [skorder.order_rule, skinit.init_check]
RULES["K05"] = [skiplist.users_rule]
RULES["L01"] = [locks.order_rule]
RULES["L02"] = [proto.sema_rule]
RULES["L03"] = [locks.guarded_rule]
RULES["L05"] = [locks.needs_rule]
RULES["W02"] = [proto.event_rule, proto.sleep_rule, proto.awake_rule]
RULES["W03"] = [proto.worker_rule, workers.registry_rule]
RULES["R01"] = [proto.last_ref_rule]
RULES["A01"] = [batch.batch_rule]
RULES["A02"] = [batch.see_rule]
RULES["T01"] = [tree.tree_rule]
RULES["O01"] = [ordering.order_rule]
RULES["M01"] = [memiter.range_rule]
RULES["M02"] = [merge.merge_rule]
RULES["O02"] = [buffers.own_rule]
RULES["C01"] = [integrity.checked_rule]
RULES["C02"] = [byterules.checksum_rule]
