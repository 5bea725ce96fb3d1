"""Builds the extractor and the facts of the current tree (a check does the same when they are missing or stale)."""
import facts
F = facts.load()
print(len(F.fns), 'functions in the facts')
