I = "index.py"
C = "corpus.py"
L = "cli.py"
W = "server.py"
M("g02-nested", "C02", I, """        if self.db.in_transaction:
            raise IndexingError(
                "The `index` method can't be called in a nested transaction."
            )
""", "")
M("g07-nested-rollback", "C07", I, "                    if nested:\n                        self.db.execute(f'rollback to", "                    if nested and self._transaction_level > 1:\n                        self.db.execute(f'rollback to")
M("g07-nested-release", "C07", I, """                        self.db.execute(f'rollback to "{func.__name__}"')
                        self.db.execute(f'release "{func.__name__}"')
""", """                        self.db.execute(f'release "{func.__name__}"')
""")
M("g07-nested-level", "C07", I, "if self._transaction_level == 1 and self._changed:", "if not nested and self._changed:")
M("g07-nested-commit", "C07", I, """                self.db.execute(f'release "{func.__name__}"')
                released = True
""", """                if self._transaction_level == 1 and self._changed:
                    self.db.execute("commit")
                else:
                    self.db.execute(f'release "{func.__name__}"')
                released = True
""")
