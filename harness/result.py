"""What a family of executions reports to check.py."""


class Result:
    def __init__(self, name):
        self.name = name
        self.states = 0           # distinct states TLC found
        self.transitions = 0      # states TLC generated
        self.traces = 0           # traces / behaviours bound to the implementation
        self.events = 0
        self.samples = []
        self.violations = []      # dicts: clause, what, replay
        self.notes = {}

    def add(self, clause, what, replay):
        self.violations.append({"clause": clause, "what": what, "replay": replay})
