DEFAULT_NOTE = ("Conformance of recorded runs of the real code with an explicit TLA+ "
                "specification, plus exhaustive TLC runs of the specification on small instances. "
                "Assumes that the recorded inputs are representative; trusts TLC, NumPy/SciPy "
                "and the recorders.")
NA = {}
