"""C32 remote inference over MQTT answers like the local network, chunk by chunk."""
import contextlib
import json
import os
import sys
import threading
import time

import numpy as np
from hypothesis import strategies as st

import verif_env
from pbt import Sub, need
from pbt.gen import big_shape, bulk_floats, vary
from pbt.nets import build as build_net, net_case

sys.path.insert(0, os.path.join(verif_env.REPO, "demo", "demo_lib"))
from demo_lib.fpga import InferFPGAMQTT, Input, InputOutput, LossFPGA, Output  # noqa: E402
from paho.mqtt.client import MQTTMessage  # noqa: E402
from itcl_inference_engine.network.sequential import SequentialNetwork  # noqa: E402

RULE = (
    "A case is a network, a largest batch and a history of 1 to 5 calls (0 to 4 batches long, exact multiples and not) with a "
    "simulated device that answers at once or from another thread, fails, answers garbage or stays silent on chosen chunks. "
    "Every message, every result and every failed call is compared with the model of the protocol. Non-trivial: a call of "
    "at least two chunks, or a failed call followed by a good one."
)
ASSUMPTIONS = ["the MQTT client is a stand-in that delivers the messages in order; the device infers with the network that it was sent"]


class Device:
    """broker and device: remembers every message, answers as the plan says"""

    def __init__(self, plan):
        self.plan, self.log, self.callbacks, self.net, self.threads = plan, [], {}, None, []
        self.subscribed, self.chunks = [], 0

    def subscribe(self, topic, qos=0):
        self.subscribed.append(topic)

    def message_callback_add(self, topic, fn):
        self.callbacks[topic] = fn

    def publish(self, topic, payload, qos=0):
        doc = json.loads(payload)
        self.log.append((topic, doc, qos))
        if topic == "model":
            self.net = SequentialNetwork(doc)
            if "loss" in self.callbacks:
                k = len(self.log) - 1
                value = self.values[k]
                if value is None:
                    value = float(np.abs(np.asarray(self.net.infer(self.x))).sum())
                self.answer("loss", {"loss": value}, self.plan[k])
            return
        need(topic == "infer", "topic", got=topic)
        x = np.array(doc["input"]["tensor"]).reshape(doc["input"]["shape"])
        how = self.plan[self.chunks % len(self.plan)] if self.plan else "now"
        self.chunks += 1
        y = np.asarray(self.net.infer(x))
        self.answer("result", {"id": doc["input"]["id"], "shape": list(y.shape), "tensor": y.ravel().tolist()}, how)

    def answer(self, topic, doc, how):
        payload = json.dumps(doc).encode()
        if how == "silent":
            return
        if how == "garbage":
            payload = b"{not json"
        elif how == "incomplete":
            payload = b"{}"
        message = MQTTMessage(topic.encode(), payload)
        if how in ("thread", "slow"):
            t = threading.Thread(target=self.deliver, args=(how, topic, message))
            self.threads.append(t)
            t.start()
        elif how in LOST:
            with contextlib.suppress(Exception):  # the client suppresses the exceptions of its callbacks
                self.callbacks[topic](self, None, message)
        else:
            self.callbacks[topic](self, None, message)

    def deliver(self, how, topic, message):
        """calls the callback in this thread; "slow": the other threads run between any two of its lines"""
        if how == "slow":
            sys.settrace(pause)
        try:
            self.callbacks[topic](self, None, message)
        finally:
            sys.settrace(None)


def pause(frame, event, arg):
    if not frame.f_code.co_filename.endswith("fpga.py"):
        return None
    if event == "line":
        time.sleep(0.0005)
    return pause


HOW = ["now", "thread", "slow"]
LOST = ["silent", "garbage", "incomplete"]


@st.composite
def remote_case(draw, large=False):
    net = draw(net_case())
    net["lead"], net["kind"] = "2d", "dense"
    size = draw(st.integers(1, 6))
    if large:
        size = draw(st.sampled_from([31, 32, 33, 64, 100, 128]))
        net["dims"] = draw(st.lists(st.sampled_from([1, 3, 16, 33, 64, 65, 100, 129]), min_size=6, max_size=6))
    calls = draw(st.lists(st.tuples(st.integers(1, 4 * size), st.integers(0, 2**31 - 1)).map(list), min_size=1, max_size=5))
    bad = draw(st.booleans())
    plan = draw(st.lists(st.sampled_from(HOW * 3 + (["silent", "garbage", "incomplete"] if bad else [])), min_size=1, max_size=9))
    return {"net": net, "size": size, "calls": calls, "plan": plan, "qos": draw(st.integers(0, 2))}


def check_remote(c, ctx):
    schema, x0 = build_net(c["net"])
    local = SequentialNetwork(schema)
    dev = Device(c["plan"])
    silent = any(h in ("silent", "garbage", "incomplete") for h in c["plan"])
    remote = InferFPGAMQTT(dev, "result", "model", "infer", c["size"], qos=c["qos"], timeout=0.03 if silent else 20)
    need(dev.subscribed == ["result"] and list(dev.callbacks) == ["result"], "subscribes to the results")
    failed = recovered = several = False
    for n, seed in c["calls"]:
        rng = np.random.RandomState(seed)
        x = vary(rng.normal(0, 0.6, size=(n, x0.shape[-1])) * c["net"].get("unit", 1.0))
        at, first = len(dev.log), dev.chunks
        got = remote(local, x)
        for t in dev.threads:
            t.join()
        log = dev.log[at:]
        need(log[0][0] == "model" and log[0][1] == json.loads(json.dumps(schema)), "the current network is sent first")
        need(all(q == c["qos"] for _, _, q in log), "quality of service")
        sent = [m["input"] for t, m, _ in log[1:]]
        need(all(t == "infer" for t, _, _ in log[1:]), "then only inputs are sent")
        need(all(1 <= m["shape"][0] <= c["size"] for m in sent), "no chunk is larger than the largest batch", got=[m["shape"] for m in sent])
        need(all(m["shape"][1] == x.shape[1] and len(m["tensor"]) == m["shape"][0] * m["shape"][1] for m in sent), "shape of the chunks")
        rows = np.concatenate([np.array(m["tensor"]).reshape(m["shape"]) for m in sent])
        need(np.array_equal(rows, x[: len(rows)]), "the rows are sent in order")
        hows = [c["plan"][(first + k) % len(c["plan"])] for k in range(dev.chunks - first)]
        bad = [k for k, h in enumerate(hows) if h not in HOW]
        if bad:
            need(got is None and bad == [len(hows) - 1], "a lost answer fails the call at that chunk", got=got, hows=hows)
            failed = True
        elif silent and got is None and {"thread", "slow"} & set(hows):
            ctx.label("slow machine")  # the short time limit expired although the answer was on its way
        else:
            need(got is not None, "the call succeeds", hows=hows)
            want = np.asarray(local.infer(x))
            need(got.shape == want.shape and np.array_equal(got, want), "same results as the local network", got=got, want=want)
            need(len(rows) == n, "every row is sent", got=len(rows), want=n)
            recovered |= failed
        several |= len(sent) > 1
    ctx.nontrivial(several or recovered)
    if failed:
        ctx.label("failed call")
    if recovered:
        ctx.label("recovered")


# ---------------------------------------------------------------- loss on the device
@st.composite
def loss_case(draw):
    net = draw(net_case())
    net["lead"], net["kind"] = "2d", "dense"
    plan = draw(st.lists(st.sampled_from(["now", "thread", "slow", "now", *draw(st.sampled_from([["silent"], LOST[1:], LOST]))]), min_size=1, max_size=5))
    values = st.one_of(st.none(), st.sampled_from([0.0, 0, 1, -3, 1e-12, -0.25, 1e30]), st.floats(-1e6, 1e6))
    return {"net": net, "plan": plan, "values": [draw(values) for _ in plan]}


def check_loss(c, ctx):
    schema, x = build_net(c["net"])
    local = SequentialNetwork(schema)
    dev = Device(c["plan"])
    dev.x, dev.values = x, c["values"]
    lost = bool(set(LOST) & set(c["plan"]))
    loss = LossFPGA(dev, "loss", "model", timeout=0.03 if lost else 20)
    need(dev.subscribed == ["loss"], "subscribes to the losses")
    mine = float(np.abs(np.asarray(local.infer(x))).sum())
    for k, how in enumerate(c["plan"]):
        want = mine if c["values"][k] is None else c["values"][k]
        try:
            got = loss(local)
        except RuntimeError:
            need(how in LOST or (lost and how in ("thread", "slow")), "times out only when there is no answer", how=how)
            got = None
        for t in dev.threads:
            t.join()
        need(len(dev.log) == k + 1 and dev.log[k][0] == "model" and dev.log[k][1] == json.loads(json.dumps(schema)), "the network is sent once")
        if got is not None:
            need(how not in LOST, "a lost answer is not replaced by an old one", got=got)
            need(got == want, "the loss of the device", got=got, want=want)
    ctx.nontrivial(len(c["plan"]) > 1)


# ---------------------------------------------------------------- messages
@st.composite
def message_case(draw):
    shape = [draw(st.integers(1, 5)) for _ in range(draw(st.integers(1, 4)))]
    if draw(st.integers(0, 9)) == 0:
        shape = draw(big_shape(2000, 4))
    return {"x": draw(bulk_floats(tuple(shape), 10.0)), "y": draw(bulk_floats((shape[0], draw(st.integers(1, 4))), 10.0)), "id": draw(st.text(max_size=6)), "f32": draw(st.booleans())}


def check_message(c, ctx):
    x, y = np.array(c["x"]), np.array(c["y"])
    if c["f32"]:
        x, y = x.astype(np.float32), y.astype(np.float32)
    x, y = vary(x), vary(y)
    flat = [len(x), x.size // len(x)]
    for cls in (Input, Output):
        m = cls.from_numpy(c["id"], x)
        d = json.loads(json.dumps(m.as_kv()))
        need(d == {"id": c["id"], "shape": flat, "tensor": x.astype(float).ravel().tolist()}, "message of a tensor", got=d)
    back = Output.from_kv(json.loads(json.dumps(Output.from_numpy(c["id"], x).as_kv())))
    need(back.id == c["id"] and np.array_equal(back.as_numpy(), x.astype(float).reshape(flat)), "a result survives its message")
    deep = Output.from_kv({"id": c["id"], "shape": list(x.shape), "tensor": x.astype(float).ravel().tolist()}).as_numpy()
    need(deep.shape == x.shape and np.array_equal(deep, x.astype(float)), "a result has the shape of its message", got=deep.shape)
    need(json.loads(Input.from_numpy(c["id"], x).as_json()) == Input.from_numpy(c["id"], x).as_kv(), "JSON text of an input")
    both = InputOutput.from_numpy(c["id"], x, y)
    want = {"input": Input.from_numpy(c["id"], x).as_kv(), "output": Output.from_numpy(c["id"], y).as_kv()}
    need(both.as_kv() == want and json.loads(both.as_json()) == json.loads(json.dumps(want)), "message of a data set")
    ctx.nontrivial(x.ndim > 1 and x.size > 2)


def subs():
    return [
        Sub("calls", remote_case(), check_remote, quick=800, thorough=5000),
        Sub("large calls", remote_case(large=True), check_remote, quick=48, thorough=300),
        Sub("loss", loss_case(), check_loss, quick=200, thorough=1200),
        Sub("messages", message_case(), check_message, quick=600, thorough=4000),
    ]
