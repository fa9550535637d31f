"""Stand-in for aehmc's NUTS transition kernel.

AeMCMC's obligations around NUTS are: which log density it hands over, at
which position, with which parameters, and how the returned position is mapped
back.  The stand-in makes the kernel's answer an environment choice (any
position may come back) and records everything it was given.  Like the real
kernel it uses one generator outside and two inside a `Scan`, whose updates it
returns.
"""
import aehmc.nuts as aehmc_nuts
import aesara
import aesara.tensor as at
import numpy as np
from aesara.graph.basic import Apply
from aesara.graph.op import Op
from aesara.tensor.random.op import RandomVariable

from . import draws

real_new_kernel = aehmc_nuts.new_kernel


class ProbeRV(RandomVariable):
    name = "nuts_probe"
    ndim_supp = 1
    ndims_params = [1, 0]
    dtype = "floatX"
    _print_name = ("Probe", "Probe")

    def _infer_shape(self, size, dist_params, param_shapes=None):
        return (dist_params[0].shape[0],)

    @classmethod
    def rng_fn(cls, rng, q, step_size, size=None):
        return q + step_size * rng.normal(size=np.shape(q))


probe = ProbeRV()


class Record(Op):
    """Identity on the first input; logs all inputs."""

    __props__ = ()

    def make_node(self, *inputs):
        inputs = [at.as_tensor_variable(i) for i in inputs]
        return Apply(self, inputs, [inputs[0].type()])

    def infer_shape(self, fgraph, node, shapes):
        return [shapes[0]]

    def perform(self, node, inputs, outputs):
        if draws._active is not None:
            draws._active.extra.append([np.array(i) for i in inputs])
        outputs[0][0] = np.array(inputs[0])


record = Record()


def stub_new_kernel(srng, logprob_fn, *args, **kwargs):
    def step(q, potential_energy, potential_energy_grad, step_size, inverse_mass_matrix):
        momentum = srng.normal(0, 1, size=q.shape[0], name="momentum")

        def body(q_, s_):
            d = srng.uniform(0, 1, name="direction")
            qn = srng.gen(probe, q_, s_)
            return qn + 0.0 * d

        qs, updates = aesara.scan(
            body, sequences=[at.shape_padleft(q)], non_sequences=[step_size]
        )
        q_new = qs[0] + 0.0 * momentum
        lp = logprob_fn(q_new)
        q_rec = record(
            q_new, lp, q, potential_energy, step_size, at.atleast_1d(inverse_mass_matrix), momentum,
            potential_energy_grad, aesara.grad(lp, q_new),
        )
        z = at.as_tensor(0.0)
        return (q_rec, -lp, potential_energy_grad, z, z, z, z), updates

    return step


def install():
    aehmc_nuts.new_kernel = stub_new_kernel


def uninstall():
    aehmc_nuts.new_kernel = real_new_kernel
