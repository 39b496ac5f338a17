exec(open("/verif/dev/edits_n.py").read().split("# --- remove_entity in pieces")[0])
E = []
WI = "src/query/with.rs"; WO = "src/query/without.rs"
e("p04-with3-order", (WI, "        let iter_a = world.query::<A>();\n        let iter_b = world.query::<B>();\n        let iter_c = world.query::<C>();\n        Box::new(WithIter3", "        let iter_b = world.query::<B>();\n        let iter_a = world.query::<A>();\n        let iter_c = world.query::<C>();\n        Box::new(WithIter3"), exp="P04")
e("p04-with-order", (WI, "        let iter_a = world.query::<A>();\n        let iter_b = world.query::<B>();\n        Box::new(WithIter{", "        let iter_b = world.query::<B>();\n        let iter_a = world.query::<A>();\n        Box::new(WithIter{"), exp="P04")
e("p04-with-inline", (WI, "        let iter_a = world.query::<A>();\n        let iter_b = world.query::<B>();\n        Box::new(WithIter{\n            iter_a,\n            iter_b\n        })", "        Box::new(WithIter{\n            iter_b : world.query::<B>(),\n            iter_a : world.query::<A>()\n        })"), exp="P04")
e("with-inline-ok", (WI, "        let iter_a = world.query::<A>();\n        let iter_b = world.query::<B>();\n        Box::new(WithIter{\n            iter_a,\n            iter_b\n        })", "        Box::new(WithIter{\n            iter_a : world.query::<A>(),\n            iter_b : world.query::<B>()\n        })"))
e("without-tuple-ok", (WO, "        let iter_a = world.query::<A>();\n        let iter_b = world.query::<B>();\n        Box::new(WithoutIterLeft{\n            iter_a,\n            iter_b\n        })", "        let (iter_a,iter_b) = (world.query::<A>(),world.query::<B>());\n        Box::new(WithoutIterLeft{\n            iter_b,\n            iter_a\n        })"))
