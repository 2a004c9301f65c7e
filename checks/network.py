"""The actor system between processes, simulated in one: messages are copied, only the order between two actors is kept, and an answer that
can never come is noticed instead of awaited."""
import copy
import random

from pbt.engine import Violation
from thespian.actors import ActorSystem


class Stuck(Violation):
    """An unlimited wait for an answer although no message is on its way."""


class Mail(list):
    """Pending messages; any sender-receiver pair may be served next, in its own order."""

    def __init__(self, pick):
        super().__init__()
        self.pick = pick
        self.delivered = self.overtaken = 0

    def append(self, send):
        send.msg = copy.deepcopy(send.msg)
        super().append(send)

    def pop(self, index=0):
        heads, seen = [], set()
        for i, m in enumerate(self):
            pair = (m.sender.actorAddressString, m.toActor.actorAddressString)
            if pair not in seen:
                seen.add(pair)
                heads.append(i)
        i = heads[self.pick([self[h].toActor.actorAddressString for h in heads])]
        self.delivered += 1
        self.overtaken += i > 0
        return super().pop(i)


class Network:
    """An actor system of the case, with a generated delivery order."""

    def __init__(self, tc):
        self.tc = tc
        self.order = tc.weighted([(3, "random"), (2, "slow"), (1, "newest"), (1, "oldest")])
        self.rng = random.Random(tc.draw(10 ** 6))
        self.slow = {}
        self.stuck = 0
        self.system = ActorSystem("simpleSystemBase")
        tc.defer(self.system.shutdown)
        base = self.system._systemBase
        self.mail = Mail(self.pick)
        for m in base._pendingSends:
            self.mail.append(m)
        base._pendingSends = self.mail
        listen = base.listen

        def patient(timeout):
            answer = listen(timeout)
            if answer is None and timeout is None:
                self.stuck += 1
                raise Stuck("the answer never comes")
            return answer

        base.listen = patient

    def settle(self):
        """Time passes until nothing is on its way."""
        self.system._systemBase._runSends()

    def pick(self, receivers):
        n = len(receivers)
        if self.order == "oldest" or n == 1:
            return 0
        if self.order == "newest":
            return n - 1
        if self.order == "random":
            return self.rng.randrange(n)
        # some actors are slow: they are served when nobody else has mail
        for r in receivers:
            if r not in self.slow:
                self.slow[r] = self.rng.random()
        if self.rng.random() < 0.05:
            self.slow[self.rng.choice(receivers)] = self.rng.random()
        return min(range(n), key=lambda i: self.slow[receivers[i]])
