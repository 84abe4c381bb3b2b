"""Small torch programs used to compare the transfer functions of nnjcheck with torch (development only)."""
# inputs by name: shape in symbolic dimensions
INPUTS = {
    "x": ("B", "N"), "y": ("B", "N"), "z": ("N",), "w": ("O", "N"), "m": ("B", "N", "O"), "m2": ("B", "O", "N"), "s": ("B", "N", "N"), "q": ("N", "N"),
    "im": ("B", "C", "H", "W"), "im2": ("B", "O", "H", "W"), "k": ("O", "C", 3, 3), "k1": ("O", "C", 2, 1), "b": ("O",), "v": ("B", "O"), "flat": ("B", "C*H*W"), "one": ("B", 1, "N"), "sc": (), "d3": ("B", "C", "H"),
}
DIMS = {"B": 2, "N": 3, "O": 4, "C": 2, "H": 5, "W": 4}
P = []


def p(*lines):
    for l in lines:
        P.append(l)


# elementwise and arithmetic
p("x + y", "x - y", "x * y", "x / y", "x ** 2", "x ** 3", "x.pow(2)", "torch.pow(x, 2)", "2 ** x", "1 / x", "1 - x", "x + 1", "-x", "+x", "abs(x)", "x @ w.T", "x @ w.t()", "x + z", "z + x", "x * z[None]", "x * sc", "sc + 1",
  "torch.add(x, y, alpha=2)", "torch.sub(x, y, alpha=2)", "x.add(y).mul(2).sub(1).div(3)", "torch.mul(x, y)", "torch.div(x, y)", "x // 0.7", "x % 0.7", "torch.remainder(x, 0.7)", "torch.neg(x)", "torch.reciprocal(x)", "torch.square(x)",
  "torch.exp(x)", "torch.log(x.abs())", "torch.sqrt(x.abs())", "torch.rsqrt(x.abs())", "torch.sin(x)", "torch.cos(x)", "torch.tan(x)", "torch.tanh(x)", "torch.sigmoid(x)", "torch.sinh(x)", "torch.cosh(x)", "torch.relu(x)", "torch.sign(x)", "torch.abs(x)", "torch.erf(x)",
  "torch.expm1(x)", "torch.log1p(x.abs())", "torch.floor(x)", "torch.round(x)", "torch.trunc(x)", "torch.ceil(x)", "torch.atan(x)", "torch.exp2(x)", "torch.log2(x.abs())",
  "x.clamp(-0.5, 0.5)", "x.clamp(min=0)", "x.clamp(max=0.1)", "torch.clamp(x, min=-1, max=0.2)", "x.clamp_min(0)", "x.clip(0, 1)", "torch.maximum(x, y)", "torch.minimum(x, y)", "torch.where(x > 0, x, y)", "torch.where(x > 0, 1.0, 0.0)", "torch.where(x > 0, x, torch.zeros_like(x))", "torch.where(x > 0, x, 0.0)", "x.where(x > 0, y)",
  "(x > 0).float()", "(x > 0).to(x.dtype)", "(x > 0) * x", "(x > 0) & (y > 0)", "(x > 0) | (y > 0)", "~(x > 0)", "torch.logical_and(x > 0, y > 0)", "x == x", "x != y", "x >= y", "x.gt(0)", "(x > 0).type_as(x)", "torch.heaviside(x, torch.zeros_like(x))", "x.masked_fill(x > 0, 0.0)", "torch.nan_to_num(x)",
  "torch.addcmul(x, x, y, value=2)", "torch.addcdiv(x, x, y)", "torch.lerp(x, y, 0.3)", "torch.logaddexp(x, y)", "torch.special.expit(x)", "torch.logit(torch.sigmoid(x))", "torch.atan2(x, y)", "torch.hypot(x, y)", "torch.fmod(x, 0.7)", "torch.frac(x)", "torch.asin(x.clamp(-1, 1))")
# reductions
p("x.sum()", "x.sum(1)", "x.sum(dim=1)", "x.sum(-1, keepdim=True)", "m.sum((1, 2))", "m.sum(dim=(0, 2))", "x.mean()", "x.mean(0)", "x.mean(dim=1, keepdim=True)", "x.max()", "x.max(1)[0]", "x.max(dim=1).values", "x.max(1)[1]", "x.min(1)[0]", "x.amax(1)", "x.amax(dim=(0, 1))", "x.amin(-1)", "x.argmax(1)", "x.argmin(0)",
  "x.prod(1)", "x.norm()", "x.norm(dim=1)", "x.norm(dim=1, keepdim=True)", "torch.norm(x, dim=-1)", "torch.linalg.norm(x, dim=1)", "torch.linalg.vector_norm(x, dim=1)", "x.norm(p=2, dim=1)", "torch.logsumexp(x, 1)", "torch.logsumexp(m, dim=(1, 2))", "x.softmax(1)", "torch.softmax(x, dim=-1)", "torch.log_softmax(x, -1)", "x.cumsum(1)", "x.var(1)", "x.std(1, unbiased=False)", "q.trace()", "torch.trace(q)", "(x > 0).any()", "(x > 0).all(1)", "torch.sum(x, dim=0)", "torch.mean(m, (1, 2))", "(x > 0).sum()", "(x > 0).sum(1)", "torch.count_nonzero(x)", "torch.dot(z, z)", "torch.cumprod(x, 1)", "x.median()", "torch.flip(x, [1]).cumsum(1)", "sum(x)", "sum([x, y])", "max(x[0, 0], x[0, 1])")
# shapes
p("x.reshape(-1)", "x.view(-1)", "m.reshape(m.shape[0], -1)", "m.view(m.size(0), -1)", "m.flatten(1)", "m.flatten()", "torch.flatten(im, 1)", "torch.flatten(im, start_dim=1, end_dim=2)", "im.flatten(2)", "flat.reshape(im.shape)", "flat.view(*im.shape)", "flat.view_as(im)", "flat.unflatten(1, im.shape[1:])", "flat.reshape(*im.shape[:2], -1)", "flat.reshape(-1, *im.shape[1:])",
  "x.unsqueeze(1)", "x.unsqueeze(-1)", "x[:, None]", "x[..., None]", "one.squeeze(1)", "one.squeeze()", "one[:, 0]", "x.squeeze(1)", "m.transpose(1, 2)", "m.permute(0, 2, 1)", "m.permute(2, 0, 1)", "m.mT", "q.T", "m.swapaxes(0, 1)", "m.movedim(1, 2)", "torch.transpose(m, -1, -2)", "im.permute(0, 2, 3, 1).reshape(im.shape[0], -1)", "im.transpose(1, 2).contiguous().view(im.shape[0], -1)", "im.transpose(1, 2).view(im.shape[0], -1)", "x.expand(5, -1, -1)", "x.unsqueeze(1).expand(-1, 4, -1)", "z.expand(x.shape)", "z.expand_as(x)", "x.repeat(2, 1)", "x.repeat(1, 2)", "x.repeat(3, 1, 1)", "x.repeat_interleave(2, dim=1)", "x.repeat_interleave(2)", "torch.repeat_interleave(x, 3, 0)", "torch.tile(x, (2, 2))", "torch.broadcast_to(z, x.shape)", "x.T", "x.t()", "x.flip(1)", "torch.flip(m, dims=(1, 2))", "torch.roll(x, 1, 1)", "torch.roll(x, shifts=-1, dims=0)", "m.rot90(1, (1, 2))",
  "torch.cat([x, y], dim=1)", "torch.cat((x, y))", "torch.cat([x, v], 1)", "torch.cat([im, im2], dim=1)", "torch.stack([x, y])", "torch.stack([x, y], dim=1)", "torch.stack([x, y], -1)", "torch.hstack([x, v])", "torch.vstack([x, y])", "torch.concat([x, y], 1)", "x.split(1, dim=1)[0]", "x.split([1, 2], 1)[1]", "x.chunk(2, 1)[0]", "torch.split(x, 2, dim=1)[-1]", "x.unbind(1)[0]", "torch.unbind(m)[1]", "torch.tensor_split(x, 2, dim=1)[0]", "torch.atleast_2d(z)", "torch.ravel(x)", "torch.dstack([x, y])", "torch.column_stack([x, y])", "x.narrow(1, 1, 2)", "x.select(1, 0)", "x.unfold(1, 2, 1)", "torch.numel(x) * sc", "x.nelement() + sc")
# indexing
p("x[0]", "x[:, 0]", "x[:, -1]", "x[:, 1:]", "x[:, :-1]", "x[:, ::2]", "x[0, 1]", "m[:, 0, :]", "m[..., 0]", "m[:, :, None, 0]", "x[None]", "x[[0, 1], [1, 2]]", "x[:, [0, 2]]", "x[torch.arange(x.shape[0]), 0]", "m[torch.arange(m.shape[0]), 0]", "m[:, torch.arange(2), torch.arange(2)]", "m[torch.arange(2)[:, None], torch.arange(2)[None, :]]", "x[x > 0].sum()", "x[-1]", "m[-1, ..., 1]", "im[:, :, 1:-1, 1:-1]", "x[torch.tensor([1, 0])]", "x[slice(None), 1]", "x[(slice(None), 1)]",
  "torch.gather(x, 1, torch.zeros(x.shape[0], 1, dtype=torch.long))", "x.gather(1, x.argmax(1, keepdim=True))", "torch.index_select(x, 1, torch.tensor([0, 2]))", "x.index_select(0, torch.tensor([1]))", "torch.take_along_dim(x, x.argmax(1, keepdim=True), 1)", "torch.diagonal(s, dim1=1, dim2=2)", "torch.diagonal(s, 0, 1, 2)", "s.diagonal(dim1=-2, dim2=-1)", "torch.diag(z)", "torch.diag(q)", "q.diag()", "torch.diag_embed(x)", "torch.diag_embed(x, dim1=-2, dim2=-1)", "q.tril()", "torch.triu(s, 1)", "torch.tril(q, diagonal=-1)", "q.diagonal()", "torch.diagonal(q, offset=1)", "torch.diag_embed(x, offset=1)", "s.diagonal(offset=-1, dim1=1, dim2=2)")
# creation
p("torch.zeros(x.shape)", "torch.zeros_like(x)", "torch.ones_like(x) * 2", "torch.ones(x.shape[0], 3)", "torch.ones((x.shape[0], x.shape[1]), dtype=x.dtype)", "torch.eye(x.shape[1])", "torch.eye(x.shape[1], dtype=x.dtype, device=x.device)", "torch.eye(x.shape[1]).expand(x.shape[0], -1, -1)", "torch.eye(x.shape[1]).repeat(x.shape[0], 1, 1)", "torch.eye(3, 4)", "torch.full(x.shape, 2.5)", "torch.full_like(x, 2)", "torch.full((2, 3), 2)", "torch.arange(x.shape[1])", "torch.arange(1, 5)", "torch.arange(0, 6, 2)", "torch.arange(3.0)", "torch.tensor([1.0, 2.0])", "torch.tensor([1, 2])", "torch.tensor(3.0)", "torch.tensor([[1, 2], [3, 4]]).sum()", "x.new_zeros(x.shape)", "x.new_ones(2, 3)", "x.new_full((2, 2), 3.0)", "x.new_tensor([1.0, 2.0])", "torch.zeros(2, 3).to(x)", "torch.ones(3).to(x.dtype)", "torch.zeros(3, dtype=torch.float64)", "torch.linspace(0, 1, 5)", "torch.meshgrid(torch.arange(2), torch.arange(3), indexing='ij')[0]", "torch.kron(q, q)", "torch.block_diag(q, q)", "torch.zeros(*x.shape)", "torch.zeros(x.size())", "torch.zeros(x.size(0), x.size(1))", "torch.empty_like(x).fill_(3.0)", "torch.eye(x.shape[-1]).to(x).unsqueeze(0).expand(len(x), -1, -1)", "torch.ones(x.shape, dtype=x.dtype, device=x.device)", "torch.as_tensor([1.0, 2.0])", "torch.tril_indices(3, 3)", "torch.nn.functional.one_hot(x.argmax(1), 3)", "torch.nn.functional.one_hot(x.argmax(1), num_classes=x.shape[1]).to(x)", "x.detach().clone()", "x.data", "torch.clone(x)", "x.new_empty(0)", "torch.scalar_tensor(2.0)")
# products
p("torch.matmul(x, w.T)", "x @ z", "torch.mm(x, w.T)", "torch.bmm(m, m2)", "m @ m2", "torch.matmul(m, m2)", "m @ z[:, None].expand(-1, 1).new_ones(4)", "w @ m", "torch.matmul(w, m)", "m2 @ z", "z @ m", "z @ q", "z @ z", "torch.mv(w, z)", "torch.outer(z, b)", "torch.ger(z, b)", "torch.einsum('bn,on->bo', x, w)", "torch.einsum('bij,bj->bi', m2, x)", "torch.einsum('bij,bjk->bik', m, m2)", "torch.einsum('bii->bi', s)", "torch.einsum('bii->b', s)", "torch.einsum('ij->ji', q)", "torch.einsum('bij,bji->b', m, m2)", "torch.einsum('...i,oi->...o', x, w)", "torch.einsum('bi,bi->b', x, y)", "torch.einsum('bi,bj->bij', x, v)", "torch.einsum('bnm,bnj,bjk->bmk', m, s, m)", "torch.einsum('b n m, b m k -> b n k', m, m2)", "torch.einsum('bij->b', m)", "torch.einsum('bchw,ochw->bo', im, k[..., :1, :1].expand(-1, -1, 5, 4))", "torch.einsum('ij,ij', q, q)", "torch.einsum('bij', m)", "torch.tensordot(x, w, dims=([1], [1]))", "torch.tensordot(m, w, dims=1)", "torch.tensordot(x, q, 1)", "torch.inner(x, w)", "torch.addmm(v, x, w.T)", "torch.baddbmm(s, m, m2)", "torch.linalg.multi_dot([w.T, w, q])", "torch.chain_matmul(w.T, w)", "F.linear(x, w)", "F.linear(x, w, b)", "F.linear(m2, w)", "F.bilinear(x, y, w[:, :, None].expand(-1, -1, 3))", "torch.linalg.inv(q)", "torch.inverse(q @ q.T + torch.eye(3, dtype=q.dtype))", "torch.linalg.solve(q, z)", "torch.linalg.cholesky(q @ q.T + torch.eye(3, dtype=q.dtype))", "torch.cholesky_inverse(torch.linalg.cholesky(q @ q.T + torch.eye(3, dtype=q.dtype)))", "torch.linalg.det(q)", "torch.linalg.pinv(q)", "torch.linalg.diagonal(s)", "torch.vdot(z, z)", "torch.cross(x, y, dim=1)", "torch.linalg.solve(q, torch.eye(3, dtype=q.dtype))", "torch.cholesky_solve(q, torch.linalg.cholesky(q @ q.T + torch.eye(3, dtype=q.dtype)))", "torch.linalg.matmul(q, q)", "torch.linalg.vecdot(x, y)", "torch.cdist(x, y)")
# functional
p("F.conv2d(im, k)", "F.conv2d(im, k, b)", "F.conv2d(im, k, padding=1)", "F.conv2d(im, k, stride=2)", "F.conv2d(im, k, stride=(1, 2), padding=(1, 0))", "F.conv2d(im, k1, dilation=2)", "F.conv2d(im, k[:, :1], groups=2)", "F.conv2d(im, k, padding='same')", "F.conv2d(im, k.flip(2, 3))", "F.conv_transpose2d(im2, k)", "F.conv_transpose2d(im2, k, padding=1)", "F.conv_transpose2d(im2, k, stride=2)", "F.conv_transpose2d(im2, k1)", "torch.conv2d(im, k)", "F.max_pool2d(im, 2)", "F.max_pool2d(im, 3, stride=1, padding=1)", "F.max_pool2d(im, 2, ceil_mode=True)", "F.max_pool2d(im, 2, return_indices=True)[1]", "F.max_pool2d(im, (2, 3), stride=(1, 2))", "F.avg_pool2d(im, 2)", "F.interpolate(im, scale_factor=2)", "F.interpolate(im, scale_factor=2, mode='nearest')", "F.interpolate(im, size=(7, 6))", "F.interpolate(im, scale_factor=2, mode='bilinear')", "F.interpolate(im, scale_factor=2, mode='bilinear', align_corners=True)", "F.interpolate(im, scale_factor=(2, 3))", "F.interpolate(im, scale_factor=1.5)", "F.pad(im, (1, 1, 1, 1))", "F.pad(im, (1, 2))", "F.pad(x, (0, 1), value=1.0)", "F.pad(im, (1, 1, 1, 1), mode='reflect')", "F.pad(im, (1, 1, 1, 1), mode='replicate')", "F.pad(im, (1, 1, 1, 1), mode='circular')", "F.pad(im, (-1, 0, 0, -1))", "F.unfold(im, 3)", "F.unfold(im, (3, 2), padding=1)", "F.unfold(im, 2, stride=2)", "F.fold(F.unfold(im, 3, padding=1), im.shape[2:], 3, padding=1)", "F.relu(x)", "F.softplus(x)", "F.softplus(x, beta=2, threshold=1)", "F.sigmoid(x)", "F.tanh(x)", "F.silu(x)", "F.leaky_relu(x, 0.2)", "F.elu(x)", "F.gelu(x)", "F.softmax(x, dim=1)", "F.log_softmax(x, dim=1)", "F.logsigmoid(x)", "F.normalize(x, dim=1)", "F.normalize(x)", "F.binary_cross_entropy_with_logits(x, torch.sigmoid(y))", "F.binary_cross_entropy_with_logits(x, torch.sigmoid(y), reduction='none')", "F.mse_loss(x, y)", "F.mse_loss(x, y, reduction='none')", "F.mse_loss(x, y, reduction='sum')", "F.cross_entropy(x, y.softmax(1), reduction='none')", "F.cross_entropy(x, y.argmax(1), reduction='none')", "F.cross_entropy(x, y.argmax(1))", "F.nll_loss(x.log_softmax(1), y.argmax(1))", "F.cosine_similarity(x, y)", "F.max_unpool2d(*F.max_pool2d(im[:, :, :4], 2, return_indices=True), 2)", "F.hardtanh(x)", "F.layer_norm(x, (3,))", "F.pixel_shuffle(im.repeat(1, 2, 1, 1), 2)", "F.adaptive_avg_pool2d(im, 1)", "F.binary_cross_entropy(torch.sigmoid(x), torch.sigmoid(y), reduction='none')", "F.gaussian_nll_loss(x, y, torch.ones_like(x))", "F.threshold(x, 0.1, 0.0)", "F.relu6(x)", "F.softsign(x)", "F.selu(x)")
# types
p("x.float()", "x.double()", "x.long()", "x.to(torch.float32)", "x.float() + x", "x.float() * 2", "x.long() * 1.5", "x.long() / 2", "x.long() // 2", "x.float() @ w.float().T", "x.float() @ w.T", "torch.cat([x.float(), y], 1)", "torch.arange(3) * x", "torch.arange(3) / 2", "torch.ones(3) * x", "torch.tensor(2.0) * x.float()", "torch.tensor(2, dtype=torch.float64) * x.float()", "torch.tensor([2.0], dtype=torch.float64) * x.float()", "torch.where(x > 0, x.float(), y)", "x.half().float()", "x.to(y)", "x.type(torch.float32)", "x.bool()", "x.int() + True", "torch.einsum('bi,oi->bo', x.float(), w)", "(x > 0).sum() / 2", "(x > 0).float().mean()", "torch.zeros(3) + x", "x.float().sum() + sc", "torch.stack([x.float(), y])", "torch.maximum(x.float(), y)", "torch.is_floating_point(x) * sc", "F.linear(x.float(), w)", "F.conv2d(im.float(), k)", "torch.bmm(m.float(), m2)", "torch.full((2,), True)", "torch.ones(2, 2, dtype=torch.long).sum()", "torch.arange(4).float().mean()", "torch.sqrt(torch.arange(4))", "torch.exp(torch.tensor(1))")
# in place (statement ; value)
S = [
    "r = x.clone()\nr += y\nreturn r", "x += 1\nreturn x", "r = x\nr *= 2\nreturn x", "r = x.view(-1)\nr[0] = 5.0\nreturn x", "r = x[:, 0]\nr.mul_(3)\nreturn x", "r = x.reshape(-1)\nr.zero_()\nreturn x", "r = x.T.reshape(-1)\nr.zero_()\nreturn x", "r = torch.zeros_like(x)\nr[:, 0] = x[:, 1]\nreturn r", "r = torch.zeros(2, 3, 3, dtype=x.dtype)\nr[:, torch.arange(3), torch.arange(3)] = x\nreturn r", "r = torch.zeros(2, 3, 3, dtype=x.dtype)\nr.diagonal(dim1=1, dim2=2).copy_(x)\nreturn r", "r = torch.zeros(2, 3, 3, dtype=x.dtype)\ntorch.diagonal(r, 0, 1, 2)[:] = x\nreturn r",
    "r = x.clone()\nr[r > 0] = 0.0\nreturn r", "r = x.clone()\nr[r > 0] *= 2\nreturn r", "r = torch.empty_like(x)\nfor i in range(x.shape[0]):\n    r[i] = x[i] * i\nreturn r", "r = []\nfor a in x:\n    r.append(a * 2)\nreturn torch.stack(r)", "r = x.clone()\nr.fill_diagonal_(1.0)\nreturn r", "r = x.detach()\nr.add_(1)\nreturn x", "r = x.data\nr.add_(1)\nreturn x", "r = x.clone()\nr.clamp_(min=0)\nreturn r", "r = x.contiguous()\nr.add_(1)\nreturn x", "r = x.T.contiguous()\nr.add_(1)\nreturn x", "r = x.to(x.dtype)\nr.add_(1)\nreturn x", "r = x.float().double()\nr.add_(1)\nreturn x", "r = x.expand(2, 2, 3)\nreturn r.sum(0)", "r = torch.zeros(2, 3, dtype=x.dtype)\nr.index_add_(1, torch.tensor([0, 0, 2]), x)\nreturn r", "r = torch.zeros(2, 3, dtype=x.dtype)\nr.scatter_(1, torch.tensor([[0, 1, 2], [2, 1, 0]]), x)\nreturn r", "r = torch.zeros(2, 3, dtype=x.dtype)\nr.scatter_add_(1, torch.tensor([[0, 0, 0], [2, 1, 1]]), x)\nreturn r", "r = torch.zeros(2, 3, dtype=x.dtype)\nr.index_put_((torch.tensor([0, 0]), torch.tensor([1, 1])), x[0, :2], accumulate=True)\nreturn r", "a, b2 = x.split([1, 2], 1)\na.add_(1)\nreturn x", "a = x.chunk(3, 1)\na[1].zero_()\nreturn x", "r = x.flatten()\nr[0] = 9.0\nreturn x", "r = m.permute(0, 2, 1)\nr[:, 0] = 0.0\nreturn m", "r = x.squeeze()\nr.add_(1)\nreturn x", "r = x[None].clone()\nr.add_(1)\nreturn x", "r = x[[0, 1]]\nr.add_(1)\nreturn x", "r = x.unbind(0)[1]\nr.add_(1)\nreturn x", "r = x.clone()\nr[0], r[1] = x[1], x[0]\nreturn r", "r = x.diag_embed()\nr.add_(1)\nreturn x", "x.copy_(y)\nreturn x", "x[:] = y\nreturn x", "x[...] = 0.0\nreturn x", "x[0] += y[1]\nreturn x", "x[:, 1:] = x[:, :-1].clone()\nreturn x", "r = torch.zeros(2, 12, 12, dtype=m.dtype)\nr[:, :3, :4] = m\nreturn r.sum(1)", "out = torch.empty_like(x)\ntorch.mul(x, y, out=out)\nreturn out", "x.sub_(y).mul_(2)\nreturn x", "x.exp_()\nreturn x", "x.t_()\nreturn x", "x.unsqueeze_(0)\nreturn x", "r = x\nr = r * 2\nreturn x", "def g(a):\n    a += 1\n    return a\ng(x)\nreturn x",
    "f = lambda a: (a * 2).sum(0)\nreturn torch.vmap(f)(m)", "return torch.vmap(lambda a, c: a @ c)(m, m2)", "return torch.func.vmap(lambda a: a @ w.T)(x)", "return torch.vmap(lambda a: a * 2, in_dims=1, out_dims=1)(x)", "return torch.vmap(lambda a, c: a * c, in_dims=(0, None))(x, z)", "return torch.vmap(torch.vmap(lambda a: a.sum()))(m)", "return torch.vmap(torch.dot)(x, y)", "return torch.vmap(lambda a: F.conv2d(a[None], k)[0])(im)", "return torch.vmap(lambda a: torch.outer(a, a))(x)", "return torch.vmap(lambda a: torch.diag(a))(x)",
    "n = 0\nwhile n < 2:\n    x = x * 2\n    n += 1\nreturn x", "return torch.stack([a @ c for a, c in zip(m, m2)])", "return torch.stack(list(map(torch.trace, s)))", "d = {'a': x}\nd['a'] = d['a'] + 1\nreturn d['a']", "b_, *rest = im.shape\nreturn im.reshape(b_, -1) * len(rest)", "import math\nreturn x * math.prod(x.shape)", "import math\nreturn x * math.pi", "n = im.shape.numel()\nreturn x * n", "return x * (x.shape[0] * x.shape[1]) ** 0.5", "assert x.ndim == 2\nreturn x", "assert x.dim() == 3\nreturn x", "raise NotImplementedError", "raise ValueError('a')", "return x if x.shape == y.shape else y", "return x if x.shape[0] == 2 else y", "return x * (1 if x.shape == m.shape else 2)", "c, h, w2 = im.shape[1:]\nreturn torch.eye(c * h * w2).sum() * sc", "import functools\nreturn functools.reduce(lambda a, c: a + c, [x, y, x])", "r = torch.zeros(x.shape[0], x.shape[1], x.shape[1], dtype=x.dtype)\nfor i in range(3):\n    r[:, i, i] = x[:, i]\nreturn r", "r = 0\nfor i in range(3):\n    for j in range(3):\n        r = r + F.pad(im, (i, 2 - i, j, 2 - j))\nreturn r", "with torch.no_grad():\n    r = x * 2\nreturn r", "return torch.stack([x[:, i] for i in range(3)], dim=1)", "return torch.cat([x[:, i:i + 1] for i in reversed(range(3))], 1)", "g = (a * 2 for a in (x, y))\nreturn next(g) + next(g)", "return [*x.shape][1] * sc", "return x.sum().item() * sc", "return float(x.shape[1]) * sc", "return torch.Size([2, 3]) == x.shape and x or y", "return x.view(x.shape[0], *([1] * 2), -1)", "return sum(t.numel() for t in (x, y)) * sc", "return x[tuple([slice(None), 0])]", "return isinstance(x, torch.Tensor) * sc", "try:\n    r = x.view(7)\nexcept RuntimeError:\n    r = y\nreturn r", "m_ = nn.Linear(3, 4).double()\nm_.weight.data = w\nm_.bias.data.zero_()\nreturn m_(x)", "c = nn.Conv2d(2, 4, 3, padding=1, bias=False).double()\nc.weight.data.copy_(k)\nreturn c(im)", "c = nn.Conv2d(2, 4, 3, padding=1, bias=False)\nreturn c.padding[0] * sc", "c = nn.Conv2d(2, 4, 3)\nreturn c.kernel_size[0] * sc + c.stride[0]", "c = nn.MaxPool2d(2)\nreturn c(im) * c.stride", "c = nn.Upsample(scale_factor=2)\nreturn c(im) * c.scale_factor", "l = nn.Sequential(nn.Tanh(), nn.Flatten())\nreturn l(im)", "l = nn.Linear(3, 4)\nreturn torch.cat([p_.reshape(-1) for p_ in l.parameters()]).numel() * sc", "l = nn.Linear(3, 4, bias=False)\nreturn sum(1 for _ in l.named_parameters()) * sc", "l = nn.Linear(3, 4)\nreturn torch.nn.utils.parameters_to_vector(l.parameters()).numel() * sc", "return x.requires_grad * sc", "return nn.Parameter(x).requires_grad * sc", "x.requires_grad_()\nreturn (x * 2).requires_grad * sc", "x.requires_grad_()\nwith torch.no_grad():\n    r = x * 2\nreturn r.requires_grad * sc", "x.requires_grad_()\nreturn (x.detach() * 2).requires_grad * sc", "x.requires_grad_()\nreturn x.data.requires_grad * sc", "x.requires_grad_()\nr = torch.zeros_like(x)\nr[0] = x[0]\nreturn r.requires_grad * sc", "x.requires_grad_()\nx += 1\nreturn x", "x.requires_grad_()\nreturn torch.autograd.grad(x.pow(2).sum(), x)[0]", "return torch.autograd.functional.jacobian(lambda a: a ** 2, z)", "return torch.func.jacrev(torch.sin)(z)", "return torch.func.grad(lambda a: a.pow(2).sum())(x)", "return torch.func.jvp(torch.sin, (x,), (y,))[1]", "return torch.func.vjp(torch.sin, x)[1](y)[0]", "return x.unsqueeze(2).mul(y.unsqueeze(1)).sum(2)", "return torch.ones_like(x[:, :, None] * v[:, None])", "b_ = x.shape[0]\nreturn m.reshape(b_ * 3, 4).reshape(b_, 3, 4).transpose(1, 2).reshape(b_, -1)", "return torch.zeros(2, 3).shape[1] * sc", "return (x, y)[1]", "return {**{'a': x}}['a']", "n = x.shape[1]\nidx = torch.arange(n)\nreturn s[:, idx, idx]", "n = x.shape[1]\nidx = torch.arange(n * n) % (n + 1) == 0\nreturn s.reshape(2, -1)[:, idx]", "n = x.shape[1]\nreturn s.reshape(2, -1)[:, :: n + 1]", "return im.unfold(2, 3, 1).unfold(3, 3, 1).shape[4] * sc", "return im.unfold(2, 3, 1).unfold(3, 2, 1).sum((4, 5))", "return torch.as_strided(x, (2, 2), (3, 1))", "out, idx = F.max_pool2d(im, 2, return_indices=True)\nreturn im.flatten(2).gather(2, idx.flatten(2)).view(out.shape)", "out, idx = F.max_pool2d(im, 2, return_indices=True)\nr = torch.zeros_like(im).flatten(2)\nr.scatter_add_(2, idx.flatten(2), out.flatten(2))\nreturn r", "return torch.nn.grad.conv2d_input(im.shape, k, im2[:, :, 2:, 2:])", "return torch.nn.grad.conv2d_weight(im, k.shape, im2[:, :, 2:, 2:])", "return x.sum(1, True)", "return x.movedim(0, -1)", "return m.sum(dim=[1, 2])", "return x.size(dim=1) * sc", "return torch.permute(m, (1, 0, 2))", "return torch.unsqueeze(x, dim=1)", "return torch.squeeze(one, 1)", "return torch.reshape(m, (2, -1))", "return torch.max(x, dim=1)[0]", "return torch.max(x, y)", "return torch.min(x, dim=1).indices", "return torch.sum(m, dim=(1, 2), keepdim=True)", "return x.mul(y).sum(-1)", "return torch.movedim(im, 1, -1)", "return torch.sub(1, x)", "return torch.rsub(x, 1)", "return x.__mul__(2)", "return torch.zeros(2, 3).__class__ is torch.Tensor and x", "return torch.amax(im, (2, 3), keepdim=True)", "return torch.swapdims(m, 1, 2)", "return torch.std(x)", "return m.matmul(m2)", "return m.bmm(m2)", "return x.mm(w.t())", "return z.dot(z)", "return x.index_add(1, torch.tensor([0, 1, 1]), y)", "return x.scatter(1, torch.tensor([[0], [1]]), 0.0)", "return x.scatter_add(1, torch.tensor([[0], [1]]), y)", "return x.index_fill(1, torch.tensor([0]), 2.0)", "return torch.scatter(x, 1, torch.tensor([[0], [1]]), y)", "return torch.diagonal_scatter(q, z)", "return torch.select_scatter(x, z, 0, 0)", "return torch.slice_scatter(x, y[:, :2], 1, 0, 2)", "return x.masked_select(x > 0).sum()", "return torch.masked_fill(x, x > 0, 1.0)", "return x.nonzero().shape[1] * sc", "return torch.bucketize(x, torch.tensor([0.0], dtype=x.dtype))", "return x.sort(1)[0]", "return torch.topk(x, 2, dim=1)[0]", "return x.argsort(1)",
]
# memory layout
p("(m.transpose(1, 2) * 2).view(m.shape[0], -1)", "m.transpose(1, 2).exp().view(m.shape[0], -1)", "m.transpose(1, 2).clone().view(m.shape[0], -1)", "m.transpose(1, 2).contiguous().view(m.shape[0], -1)", "torch.zeros_like(m.transpose(1, 2)).view(m.shape[0], -1)", "m.transpose(1, 2).view(m.shape[0], 1, m.shape[2], m.shape[1])", "m.transpose(0, 1).view(m.shape[1], m.shape[0] * m.shape[2])", "m.permute(1, 0, 2).view(m.shape[1], m.shape[0], m.shape[2], 1)", "im.permute(0, 2, 3, 1).view(len(im), im.shape[2] * im.shape[3], im.shape[1])", "im.permute(0, 2, 3, 1).view(m.shape[0], -1)", "im.permute(0, 2, 3, 1).reshape(m.shape[0], -1)", "x.T.view(-1)", "x.T.unsqueeze(1).view(x.shape[1], x.shape[0])", "x.expand(4, *x.shape).view(4 * x.shape[0], x.shape[1])", "x.expand(4, *x.shape).view(4, x.shape[0] * x.shape[1])", "x[:, :2].view(x.shape[0] * 2)", "x[:1].view(x.shape[1])", "m[:, 1].view(m.shape[0] * m.shape[2])", "m[:, :, 1].view(m.shape[0] * m.shape[1])", "m[:, 1:].view(m.shape[0], (m.shape[1] - 1) * m.shape[2])", "q.diagonal().view(q.shape[0], 1)", "m.select(1, 0).view(m.shape[0], m.shape[2], 1)", "(m.transpose(1, 2) + m2).view(m.shape[0], -1)", "(m2 + m.transpose(1, 2)).view(m.shape[0], -1)", "m.transpose(1, 2).float().view(m.shape[0], -1)", "m.mT.flatten(1)", "m.transpose(1, 2).is_contiguous() * sc", "m.transpose(1, 2).stride(1) * sc", "im.unfold(2, 3, 1).view(m.shape[0], -1)", "im.flatten(2).transpose(1, 2).view(m.shape[0], -1)", "im.view(*im.shape[:2], -1).view(m.shape[0], -1)")
S += ["r = x.expand(4, 2, 3)\nr += 1\nreturn r", "r = x[:1].expand(2, 3)\nr[0, 0] = 1.0\nreturn r", "r = m.transpose(1, 2).view(m.shape[0], 1, m.shape[2], m.shape[1])\nr.fill_(1.0)\nreturn m", "r = m.transpose(1, 2).reshape(m.shape[0], 1, m.shape[2], m.shape[1])\nr.fill_(1.0)\nreturn m", "r = m.transpose(1, 2).reshape(m.shape[0], -1)\nr.fill_(1.0)\nreturn m", "r = torch.empty_like(m.mT)\nr.copy_(m2)\nreturn r.view(m.shape[0], -1)", "r = x.clone()\nr[r > 0] = r[r > 0].exp() * 2 + 1\nreturn r", "r = torch.ones_like(x)\nmask = x < 0.5\nr[mask] = torch.exp(x[mask])\nreturn r"]

p("x.rot90(2, (0, 1))", "torch.rot90(im, 2, [-2, -1])", "torch.rot90(im, 1, [-2, -1])", "torch.rot90(im, k=3, dims=(2, 3))", "torch.tensor_split(im, 2, dim=1)[1]", "torch.tensor_split(m, [1], dim=2)[1]", "torch.hsplit(im, [1])[0]", "torch.row_stack([x, y])")
