"""A second device for torch without any hardware: the tensors of this device
hold their values, every operation which mixes them with (non scalar) tensors of
the CPU fails as it does with a GPU."""
import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten

META = torch.device('meta')
_used = 0


def used():
    'Number of tensors of the device created so far.'
    return _used


class DeviceError(RuntimeError):
    pass


class Unknown(Exception):
    'Operation that this device does not support.'


class Tensor2(torch.Tensor):
    @staticmethod
    def __new__(cls, elem):
        t = torch.Tensor._make_wrapper_subclass(
            cls, elem.size(), strides=elem.stride(),
            storage_offset=elem.storage_offset(), dtype=elem.dtype,
            layout=elem.layout, device=META)
        t.elem = elem
        global _used
        _used += 1
        return t

    def __deepcopy__(self, memo):
        if id(self) not in memo:
            new = Tensor2(self.elem.clone())
            new.requires_grad_(self.requires_grad)
            if getattr(self, '_is_param', False):
                new = torch.nn.Parameter(new, self.requires_grad)
            memo[id(self)] = new
        return memo[id(self)]

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def put(x):
    'Tensor moved to the device.'
    return Tensor2(x.detach().clone())


def get(x):
    return x.elem if isinstance(x, Tensor2) else x


INDEX = ('index.Tensor', 'index_put_.default', 'index_put.default',
         '_index_put_impl_.default', '_unsafe_index.Tensor')


def dispatch(func, args, kwargs):
    name = f'{func.overloadpacket.__name__}.{func._overloadname}'
    flat = tree_flatten((args, kwargs))[0]
    mine = [x for x in flat if isinstance(x, Tensor2)]
    if any(isinstance(x, torch.Tensor) and not isinstance(x, Tensor2)
           and x.device.type == 'meta' for x in flat):
        raise Unknown(name)
    device = kwargs.get('device')
    here = device is not None and torch.device(device).type == 'meta'
    there = device is not None and torch.device(device).type == 'cpu'
    if not mine and not here:
        return func(*args, **kwargs)
    copy = name.startswith(('_to_copy', 'copy_'))
    plain = [x for x in flat if isinstance(x, torch.Tensor)
             and not isinstance(x, Tensor2) and x.dim()]
    if mine and plain and not copy:
        tensors = [x for x in (args[:1] + args[2:] if name in INDEX else flat)
                   if isinstance(x, torch.Tensor)
                   and not isinstance(x, Tensor2) and x.dim()]
        if tensors or (name in INDEX and not isinstance(args[0], Tensor2)):
            raise DeviceError(f'tensors of two devices given to {name}')
    if here:
        kwargs = dict(kwargs, device=torch.device('cpu'))
    if not mine or there:
        out = func(*tree_map(get, args), **tree_map(get, kwargs))
        return out if there else tree_map(
            lambda x: Tensor2(x) if isinstance(x, torch.Tensor) else x, out)
    out = func(*tree_map(get, args), **tree_map(get, kwargs))
    if name.startswith('copy_') or name.endswith('_') or \
            func._schema.is_mutable:
        # In-place operation: the wrapper given is the one returned.
        if isinstance(out, torch.Tensor):
            for x in flat:
                if get(x) is out:
                    return x
    return tree_map(lambda x: Tensor2(x) if isinstance(x, torch.Tensor)
                    else x, out)


class Dispatch(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def indices(key):
    """Sequences of integers as tensors: torch does it without the values for
    the `meta` device."""
    if isinstance(key, (list, range)):
        return torch.tensor(list(key))
    if isinstance(key, tuple):
        return tuple(indices(k) for k in key)
    return key


def values(data):
    'Nested sequences without the tensors of the device.'
    if isinstance(data, Tensor2):
        return data.elem.tolist()
    return [values(x) for x in data] if isinstance(data, (list, tuple)) \
        else data


class Function(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        if func in (torch.tensor, torch.as_tensor):
            device = kwargs.get('device')
            if device is not None and torch.device(device).type == 'meta' \
                    and not isinstance(args[0], torch.Tensor):
                del kwargs['device']
                grad = kwargs.pop('requires_grad', False)
                return put(func(values(args[0]), *args[1:], **kwargs)
                           ).requires_grad_(grad)
        elif func is torch.Tensor.new_tensor \
                and isinstance(args[0], Tensor2):
            device = torch.device(kwargs.pop('device', META))
            kwargs.setdefault('dtype', args[0].dtype)
            out = torch.tensor(values(args[1]), *args[2:], **kwargs)
            return put(out) if device.type == 'meta' else out
        elif func is torch.Tensor.tolist and isinstance(args[0], Tensor2):
            return args[0].elem.tolist()
        elif func in (torch.Tensor.__getitem__, torch.Tensor.__setitem__):
            if isinstance(args[0], Tensor2):
                args = (args[0], indices(args[1])) + args[2:]
        return func(*args, **kwargs)


class Device:
    def __enter__(self):
        self.modes = [Dispatch(), Function()]
        for m in self.modes:
            m.__enter__()

    def __exit__(self, *exc):
        for m in self.modes[::-1]:
            m.__exit__(*exc)
