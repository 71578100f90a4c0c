"""Builds the fact extractor and the dependencies of the crate (setup)."""
import sys
import facts as F

if __name__ == '__main__':
    try:
        facts, skipped = F.collect()
        print('%d configurations extracted, %d do not build' % (len(facts), len(skipped)))
    except F.AnalysisError as e:      # the checks themselves report it
        print('cannot extract: %s' % e)
