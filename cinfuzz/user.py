"""A layer as a user of the library would write it: only `_forward_step` and the state accessors, on top of the base class."""
import continual as co
import torch
from torch import nn


class Window(co.CoModule, nn.Module):
    """y_t = sum_j weight_j x_{t - K + 1 + j}; p frames of padding before the first (and after the last) frame."""

    _state_shape = 2
    _dynamic_state_inds = [1, -1]

    def __init__(self, K, p, fill):
        nn.Module.__init__(self)
        self.receptive_field = K
        self.padding = (p,)
        self._make_padding = {"zeros": torch.zeros_like, "replicate": torch.clone}[fill]
        self.weight = nn.Parameter(torch.zeros(K))
        self.register_buffer("past", None, persistent=False)
        self.register_buffer("seen", None, persistent=False)

    def get_state(self):
        return None if self.past is None else (self.past, self.seen)

    def set_state(self, state):
        self.past, self.seen = state

    def clean_state(self):
        self.past = self.seen = None

    def _forward_step(self, input, prev_state=None):
        K = self.receptive_field
        if prev_state is None:
            pad = self._make_padding(input)
            prev_state = torch.stack([pad] * (K - 1)) if K > 1 else pad[None][:0], torch.tensor(0)
        past, seen = prev_state
        past, seen = torch.cat([past, input[None]]), seen + 1
        y = torch.tensordot(self.weight, past, dims=1) if seen > self.delay else None
        return y, (past[1:], seen)

    def forward(self, input):
        K, p = self.receptive_field, self.padding[0]
        if p:
            input = torch.cat([self._make_padding(input[:, :, :1])] * p + [input] + [self._make_padding(input[:, :, -1:])] * p, 2)
        n = input.shape[2] - K + 1
        if n < 1:
            raise ValueError("sequence shorter than the window")
        return sum(self.weight[j] * input[:, :, j:j + n] for j in range(K))
