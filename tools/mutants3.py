"""Orders that depend on the process (PYTHONHASHSEED)."""
I = "index.py"
M("c11-hash", "C11", I, "        self.random.shuffle(feature_ids)\n", "        feature_ids.sort(key=lambda f: hash(str(f)))\n        self.random.shuffle(feature_ids)\n")
M("c11-hash2", "C11", I, "            self.random.shuffle(movable_feature_list)\n", "            self.random.shuffle(movable_feature_list)\n            movable_feature_list = [int(f) for f in {str(f) for f in movable_feature_list}]\n")
