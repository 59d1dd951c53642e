From f36353e1831798e04f117a533e8dee8bf0172c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 01/44] fix: check symlink escapes of external data when the
 model path is a bare file name

---
 crates/onnx-ir/src/external_data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/external_data.rs b/crates/onnx-ir/src/external_data.rs
index 8921b7f..25423d6 100644
--- a/crates/onnx-ir/src/external_data.rs
+++ b/crates/onnx-ir/src/external_data.rs
@@ -155,9 +155,16 @@ impl ExternalDataInfo {
         let resolved = base_path.join(&self.location);
 
         // Extra safety: canonicalize and verify the resolved path is under base_path
-        // This catches edge cases like symlinks pointing outside the base directory
+        // This catches edge cases like symlinks pointing outside the base directory.
+        // The parent of a bare file name is the empty path, which means the current
+        // directory but cannot be canonicalized.
+        let base_dir = if base_path.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            base_path
+        };
         if let (Ok(canonical_base), Ok(canonical_resolved)) =
-            (base_path.canonicalize(), resolved.canonicalize())
+            (base_dir.canonicalize(), resolved.canonicalize())
             && !canonical_resolved.starts_with(&canonical_base)
         {
             return Err(format!(
-- 
2.43.0


From 88643997c6ce22e484ac10b95cfdd4ae9584c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 02/44] fix: do not allocate the declared length of external
 data before reading it

---
 crates/onnx-ir/src/tensor_store.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/onnx-ir/src/tensor_store.rs b/crates/onnx-ir/src/tensor_store.rs
index 61d13c4..9de8450 100644
--- a/crates/onnx-ir/src/tensor_store.rs
+++ b/crates/onnx-ir/src/tensor_store.rs
@@ -182,17 +182,24 @@ impl TensorDataRef {
             )
         });
 
-        let mut buffer = vec![0u8; length as usize];
-        file.read_exact(&mut buffer).unwrap_or_else(|e| {
-            panic!(
+        // The declared length is untrusted: grow with the data actually present instead of
+        // allocating it up front, which would abort the process for a bogus length.
+        let mut buffer = Vec::new();
+        match file.take(length).read_to_end(&mut buffer) {
+            Ok(read) if read as u64 == length => buffer,
+            Ok(read) => panic!(
+                "Failed to read {} bytes from '{}': only {} available",
+                length,
+                file_path.display(),
+                read
+            ),
+            Err(e) => panic!(
                 "Failed to read {} bytes from '{}': {}",
                 length,
                 file_path.display(),
                 e
-            )
-        });
-
-        buffer
+            ),
+        }
     }
 }
 
-- 
2.43.0


From f344555f98579c104103253cd35e646b288f4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 03/44] fix: refuse tensors whose data do not have the size
 their shape and type need

---
 crates/onnx-ir/src/proto_conversion.rs | 28 +++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index e77bfa2..3e283ce 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -366,7 +366,10 @@ pub fn tensor_data_ref_from_proto(
             | DType::U32
             | DType::U16
             | DType::U8
-            | DType::Bool => Ok(TensorDataRef::new(tensor.raw_data, shape, elem)),
+            | DType::Bool => {
+                check_payload_size(&tensor.name, tensor.raw_data.len() as u64, &shape, elem)?;
+                Ok(TensorDataRef::new(tensor.raw_data, shape, elem))
+            }
             _ => Err(ParseError::VariantNotFound(format!(
                 "Unsupported dtype {:?}",
                 elem
@@ -427,10 +430,32 @@ pub fn tensor_data_ref_from_proto(
                 )));
             }
         };
+        check_payload_size(&tensor.name, raw_bytes.len() as u64, &shape, elem)?;
         Ok(TensorDataRef::new(raw_bytes, shape, elem))
     }
 }
 
+/// Check that a payload has exactly the bytes its declared shape and type need
+///
+/// A tensor with too little or too much data would otherwise be passed on and read as
+/// something other than what the model declares.
+fn check_payload_size(
+    name: &str,
+    found: u64,
+    shape: &[usize],
+    dtype: DType,
+) -> Result<(), ParseError> {
+    let expected = shape
+        .iter()
+        .try_fold(dtype.size() as u64, |n, &dim| n.checked_mul(dim as u64));
+    if expected == Some(found) {
+        return Ok(());
+    }
+    Err(ParseError::VariantNotFound(format!(
+        "Tensor '{name}' of shape {shape:?} and type {dtype:?} has {found} bytes of data"
+    )))
+}
+
 /// Create a TensorDataRef for externally stored tensor data
 ///
 /// Parses the external_data field and creates a lazy reference that will
@@ -477,6 +502,7 @@ fn create_external_data_ref(
         };
         (num_elements * dtype.size()) as u64
     });
+    check_payload_size(&tensor.name, length, &shape, dtype)?;
 
     log::debug!(
         "Creating external data ref for '{}': file={}, offset={}, length={}",
-- 
2.43.0


From 0e2dd30e60e55e83407a5551d1fb1d9f4b00055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 04/44] fix: download, build and run of a model check agree on
 the cache directory

An empty or non-UTF-8 BURN_CACHE_DIR and a relative XDG_CACHE_HOME gave
get_model.py one directory and the Rust crates another.
---
 crates/model-checks/common.py         | 5 ++++-
 crates/model-checks/common/src/lib.rs | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/model-checks/common.py b/crates/model-checks/common.py
index ece4077..0e3e67e 100644
--- a/crates/model-checks/common.py
+++ b/crates/model-checks/common.py
@@ -19,7 +19,10 @@ def get_artifacts_dir(model_name: str) -> Path:
         local = os.environ.get("LOCALAPPDATA", str(Path.home() / "AppData" / "Local"))
         base = Path(local) / "burn-onnx"
     else:
-        xdg = os.environ.get("XDG_CACHE_HOME", str(Path.home() / ".cache"))
+        # Only an absolute path counts, as in the Rust crates (XDG base directory specification).
+        xdg = os.environ.get("XDG_CACHE_HOME", "")
+        if not os.path.isabs(xdg):
+            xdg = str(Path.home() / ".cache")
         base = Path(xdg) / "burn-onnx"
     d = base / "model-checks" / model_name
     d.mkdir(parents=True, exist_ok=True)
diff --git a/crates/model-checks/common/src/lib.rs b/crates/model-checks/common/src/lib.rs
index 1324c36..6b08088 100644
--- a/crates/model-checks/common/src/lib.rs
+++ b/crates/model-checks/common/src/lib.rs
@@ -4,9 +4,10 @@ use std::path::PathBuf;
 ///
 /// Used in `src/main.rs` (no cargo warnings).
 pub fn artifacts_dir(model_name: &str) -> PathBuf {
-    let base = match std::env::var("BURN_CACHE_DIR") {
-        Ok(dir) => PathBuf::from(dir),
-        Err(_) => dirs::cache_dir()
+    // An empty value counts as unset, as in common.py.
+    let base = match std::env::var_os("BURN_CACHE_DIR").filter(|dir| !dir.is_empty()) {
+        Some(dir) => PathBuf::from(dir),
+        None => dirs::cache_dir()
             .expect("could not determine cache directory")
             .join("burn-onnx"),
     };
-- 
2.43.0


From 09af9fe4bf7cb90b6136ce562c2a288a3a8224d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 05/44] fix: clone a graph output that is returned more than
 once

---
 crates/burn-onnx/src/burn/argument_helpers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/argument_helpers.rs b/crates/burn-onnx/src/burn/argument_helpers.rs
index 4dabd2b..d88bad1 100644
--- a/crates/burn-onnx/src/burn/argument_helpers.rs
+++ b/crates/burn-onnx/src/burn/argument_helpers.rs
@@ -148,8 +148,16 @@ pub fn codegen_return_expr(outputs: &[Argument]) -> TokenStream {
         let name = arg_ident(&outputs[0]);
         quote! { #name }
     } else {
-        let names: Vec<_> = outputs.iter().map(arg_ident).collect();
-        quote! { (#(#names),*) }
+        // A value listed more than once is moved only at its last position
+        let values = outputs.iter().enumerate().map(|(i, output)| {
+            let name = arg_ident(output);
+            if outputs[i + 1..].iter().any(|o| o.name == output.name) {
+                quote! { #name.clone() }
+            } else {
+                quote! { #name }
+            }
+        });
+        quote! { (#(#values),*) }
     }
 }
 
-- 
2.43.0


From c7f5133fc8b3d9f08264da47e5344e580714d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 06/44] fix: keep the MatMul result and non-vector additions
 when fusing into Linear

---
 crates/onnx-ir/src/phases/node_conversion.rs | 42 +++++++++++++++++---
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 8e1de43..aed289f 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -531,7 +531,9 @@ fn convert_matmul_to_linear(
     // Check the next node for potential conversion
     if let Some(peek_node) = iter_mut.peek() {
         let peek_node = convert_node_proto(peek_node, graph_data);
-        if is_add_node_with_bias(&peek_node, node, graph_data) {
+        if is_add_node_with_bias(&peek_node, node, graph_data)
+            && !is_used_after(&node.outputs[0].name, iter_mut.clone().skip(1), graph_data)
+        {
             convert_and_remove_add_node(&peek_node, node);
             log::debug!("Fused Add bias into Linear node {}", node.name);
 
@@ -553,10 +555,40 @@ fn is_add_node_with_bias(
     }
 
     // Check if one input is the matmul output and the other has a value
-    (peek_node.inputs[0].name == current_node.outputs[0].name
-        && graph_data.has_value(&peek_node.inputs[1].name))
-        || (peek_node.inputs[1].name == current_node.outputs[0].name
-            && graph_data.has_value(&peek_node.inputs[0].name))
+    let bias = if peek_node.inputs[0].name == current_node.outputs[0].name {
+        &peek_node.inputs[1]
+    } else if peek_node.inputs[1].name == current_node.outputs[0].name {
+        &peek_node.inputs[0]
+    } else {
+        return false;
+    };
+    if !graph_data.has_value(&bias.name) {
+        return false;
+    }
+
+    // A Linear bias is one value per output feature; other broadcasts stay an Add
+    match (
+        bias.ty.static_shape_known(),
+        current_node.inputs[1].ty.static_shape_known(),
+    ) {
+        (Some(bias_shape), Some(weight_shape)) => bias_shape[..] == weight_shape[1..],
+        _ => false,
+    }
+}
+
+/// Check if a value is a graph output or is read by any of the given nodes (or their subgraphs)
+fn is_used_after<'a>(
+    name: &str,
+    nodes: impl Iterator<Item = &'a NodeProto>,
+    graph_data: &GraphState,
+) -> bool {
+    graph_data.get_output_type(name).is_some()
+        || nodes.into_iter().any(|node| {
+            node.input
+                .iter()
+                .any(|input| crate::proto_conversion::sanitize_name(input) == name)
+                || crate::proto_conversion::extract_node_outer_scope_references(node).contains(name)
+        })
 }
 
 /// Merge the Add node's bias into the MatMul node
-- 
2.43.0


From c1564a534f39fdd73c882e7e5b2b16cd52b26f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 07/44] fix: do not eliminate an identity operation whose
 constant broadcasts

---
 .../onnx-ir/src/simplify/identity_element.rs  | 35 ++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/simplify/identity_element.rs b/crates/onnx-ir/src/simplify/identity_element.rs
index 06fa5b9..15e2046 100644
--- a/crates/onnx-ir/src/simplify/identity_element.rs
+++ b/crates/onnx-ir/src/simplify/identity_element.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::ir::{NodeType, RawNode, TensorDataExt};
+use crate::ir::{Argument, NodeType, RawNode, TensorDataExt};
 
 /// Eliminate binary ops where one operand is an identity element.
 ///
@@ -63,6 +63,11 @@ pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNod
         };
 
         if let Some(keep_idx) = passthrough {
+            // The constant may extend the shape of the kept operand by broadcasting
+            if !broadcast_keeps_shape(&node.inputs[keep_idx], &node.inputs[1 - keep_idx]) {
+                continue;
+            }
+
             let keep_name = &node.inputs[keep_idx].name;
             log::debug!(
                 "Identity element elimination: {:?} '{}' (output '{}' -> input '{}')",
@@ -116,6 +121,34 @@ fn is_constant_value(arg: &crate::ir::Argument, target: f64) -> bool {
     values.iter().all(|&v| v == target)
 }
 
+/// Check if broadcasting `kept` with `constant` is sure to give the shape of `kept`.
+fn broadcast_keeps_shape(kept: &Argument, constant: &Argument) -> bool {
+    if constant.ty.rank() > kept.ty.rank() {
+        return false;
+    }
+
+    let constant_shape = match constant.value() {
+        Some(data) => data.shape.to_vec(),
+        None => return false,
+    };
+    if constant_shape.iter().all(|&dim| dim == 1) {
+        return true;
+    }
+
+    // A dimension other than 1 has to be the (static) dimension of the kept operand
+    match kept.ty.static_shape_known() {
+        Some(kept_shape) => {
+            constant_shape.len() <= kept_shape.len()
+                && constant_shape
+                    .iter()
+                    .rev()
+                    .zip(kept_shape.iter().rev())
+                    .all(|(&constant, &kept)| constant == 1 || constant == kept)
+        }
+        None => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b7a87d0619a6ae30fa03a2ba232177c4370bcede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 08/44] fix: constant folding uses the computed shape and
 refuses overflow

---
 crates/onnx-ir/src/simplify/constant_fold.rs | 81 +++++++++++++++-----
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/constant_fold.rs b/crates/onnx-ir/src/simplify/constant_fold.rs
index af258f3..7ca1486 100644
--- a/crates/onnx-ir/src/simplify/constant_fold.rs
+++ b/crates/onnx-ir/src/simplify/constant_fold.rs
@@ -65,9 +65,16 @@ fn make_constant_node(
     node_name: &str,
     output_name: &str,
     data: TensorData,
-    ty: ArgType,
+    mut ty: ArgType,
     state: &Rc<RefCell<GraphState>>,
 ) -> RawNode {
+    // The shape of a constant is known even where the folded node's type did not have it
+    if let ArgType::Tensor(tensor) = &mut ty
+        && tensor.rank == data.shape.len()
+    {
+        tensor.static_shape = Some(data.shape.iter().copied().map(Some).collect());
+    }
+
     let data_ref = TensorDataRef::from(data);
 
     let mut gs = state.borrow_mut();
@@ -132,8 +139,14 @@ fn eval_binary(node: &RawNode, op: BinaryOp) -> Option<(TensorData, ArgType)> {
     let output_ty = node.outputs[0].ty.clone();
 
     let dtype = lhs_data.dtype;
+    if rhs_data.dtype != dtype {
+        return None;
+    }
 
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(
+        &output_ty,
+        broadcast_shape(&lhs_data.shape, &rhs_data.shape)?,
+    );
 
     match dtype {
         DType::I64 => {
@@ -146,7 +159,10 @@ fn eval_binary(node: &RawNode, op: BinaryOp) -> Option<(TensorData, ArgType)> {
             let lhs = lhs_data.to_i64_vec().ok()?;
             let rhs = rhs_data.to_i64_vec().ok()?;
             let result_i64 = apply_binary_i64(&lhs, &rhs, &op)?;
-            let result: Vec<i32> = result_i64.iter().map(|&v| v as i32).collect();
+            let result: Vec<i32> = result_i64
+                .iter()
+                .map(|&v| i32::try_from(v).ok())
+                .collect::<Option<_>>()?;
             Some((TensorData::new(result, shape), output_ty))
         }
         DType::F32 => {
@@ -166,16 +182,24 @@ fn eval_binary(node: &RawNode, op: BinaryOp) -> Option<(TensorData, ArgType)> {
     }
 }
 
-/// Derive the output shape from the already-inferred output type.
-fn output_shape(output_ty: &ArgType) -> Vec<usize> {
+/// Shape of the folded data: scalars have none, everything else has the computed one.
+fn output_shape(output_ty: &ArgType, computed: Vec<usize>) -> Vec<usize> {
     match output_ty {
         ArgType::ScalarTensor(_) | ArgType::ScalarNative(_) => vec![],
-        ArgType::Shape(len) => vec![*len],
-        ArgType::Tensor(t) => t
-            .static_shape
-            .as_ref()
-            .and_then(|ss| ss.iter().copied().collect::<Option<Vec<_>>>())
-            .unwrap_or_default(),
+        ArgType::Shape(_) | ArgType::Tensor(_) => computed,
+    }
+}
+
+/// Result shape of scalar<->tensor broadcasting and of operands of the same shape;
+/// `None` for any other broadcast.
+fn broadcast_shape(lhs: &[usize], rhs: &[usize]) -> Option<Vec<usize>> {
+    let is_single = |shape: &[usize]| shape.iter().all(|&dim| dim == 1);
+    if lhs == rhs || (is_single(rhs) && rhs.len() <= lhs.len()) {
+        Some(lhs.to_vec())
+    } else if is_single(lhs) && lhs.len() <= rhs.len() {
+        Some(rhs.to_vec())
+    } else {
+        None
     }
 }
 
@@ -201,7 +225,7 @@ fn apply_binary_i64(lhs: &[i64], rhs: &[i64], op: &BinaryOp) -> Option<Vec<i64>>
                 if b == 0 {
                     return None;
                 }
-                a / b
+                a.checked_div(b)?
             }
         };
         result.push(val);
@@ -238,17 +262,23 @@ fn apply_binary_f64(lhs: &[f64], rhs: &[f64], op: &BinaryOp) -> Option<Vec<f64>>
 fn eval_neg(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty, data.shape.to_vec());
 
     match data.dtype {
         DType::I64 => {
             let vals = data.to_i64_vec().ok()?;
-            let result: Vec<i64> = vals.iter().map(|v| -v).collect();
+            let result: Vec<i64> = vals
+                .iter()
+                .map(|v| v.checked_neg())
+                .collect::<Option<_>>()?;
             Some((TensorData::new(result, shape), output_ty))
         }
         DType::I32 => {
             let vals = data.to_i64_vec().ok()?;
-            let result: Vec<i32> = vals.iter().map(|&v| (-v) as i32).collect();
+            let result: Vec<i32> = vals
+                .iter()
+                .map(|&v| i32::try_from(-v).ok())
+                .collect::<Option<_>>()?;
             Some((TensorData::new(result, shape), output_ty))
         }
         DType::F32 => {
@@ -269,7 +299,7 @@ fn eval_neg(node: &RawNode) -> Option<(TensorData, ArgType)> {
 fn eval_sqrt(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty, data.shape.to_vec());
 
     match data.dtype {
         DType::F32 => {
@@ -290,7 +320,7 @@ fn eval_sqrt(node: &RawNode) -> Option<(TensorData, ArgType)> {
 fn eval_cast(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty, data.shape.to_vec());
 
     let target_dtype = match &output_ty {
         ArgType::ScalarTensor(d) | ArgType::ScalarNative(d) => *d,
@@ -354,10 +384,25 @@ fn eval_concat(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let output_ty = node.outputs[0].ty.clone();
     let first_data = node.inputs[0].value()?;
     let dtype = first_data.dtype;
-    let shape = output_shape(&output_ty);
 
     let non_optional = || node.inputs.iter().filter(|arg| !arg.is_optional());
 
+    // Joining the data of all inputs is a concatenation along the first dimension
+    let mut computed = first_data.shape.to_vec();
+    if computed.is_empty() {
+        computed = vec![1];
+    }
+    let mut length = 0;
+    for input in non_optional() {
+        let data = input.value()?;
+        if data.dtype != dtype {
+            return None;
+        }
+        length += data.shape.first().copied().unwrap_or(1);
+    }
+    computed[0] = length;
+    let shape = output_shape(&output_ty, computed);
+
     match dtype {
         DType::I64 => {
             let mut result: Vec<i64> = Vec::new();
-- 
2.43.0


From 0422f06fb38ad977449e5fc0d748b3a3edee80e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:01 +0000
Subject: [PATCH 09/44] fix: a Reshape or Expand between partly unknown shapes
 is not a no-op

---
 crates/onnx-ir/src/node/expand.rs  | 6 ++++--
 crates/onnx-ir/src/node/reshape.rs | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/onnx-ir/src/node/expand.rs b/crates/onnx-ir/src/node/expand.rs
index bf4efc0..e489f2d 100644
--- a/crates/onnx-ir/src/node/expand.rs
+++ b/crates/onnx-ir/src/node/expand.rs
@@ -162,10 +162,12 @@ impl NodeProcessor for ExpandProcessor {
     }
 
     fn is_noop(&self, node: &RawNode) -> bool {
-        // Expand is a no-op when output shape == input shape (no actual broadcasting)
+        // Expand is a no-op when output shape == input shape (no actual broadcasting).
+        // An unknown dimension need not be the same size on both sides.
         if let (ArgType::Tensor(in_t), ArgType::Tensor(out_t)) =
             (&node.inputs[0].ty, &node.outputs[0].ty)
-            && let (Some(in_shape), Some(out_shape)) = (&in_t.static_shape, &out_t.static_shape)
+            && let (Some(in_shape), Some(out_shape)) =
+                (in_t.static_shape_known(), out_t.static_shape_known())
         {
             return in_shape == out_shape;
         }
diff --git a/crates/onnx-ir/src/node/reshape.rs b/crates/onnx-ir/src/node/reshape.rs
index c764d63..ccdc033 100644
--- a/crates/onnx-ir/src/node/reshape.rs
+++ b/crates/onnx-ir/src/node/reshape.rs
@@ -250,11 +250,12 @@ impl NodeProcessor for ReshapeProcessor {
             return true;
         }
 
-        // Reshape is a no-op when input and output have identical static shapes
+        // Reshape is a no-op when input and output have identical, fully known shapes
+        // (an unknown dimension need not be the same size on both sides)
         if let (ArgType::Tensor(input_t), ArgType::Tensor(output_t)) =
             (&node.inputs[0].ty, &node.outputs[0].ty)
             && let (Some(in_shape), Some(out_shape)) =
-                (&input_t.static_shape, &output_t.static_shape)
+                (input_t.static_shape_known(), output_t.static_shape_known())
         {
             return in_shape == out_shape;
         }
-- 
2.43.0


From 8205b094748b81e5e0ed5a232db061a912a1ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:01 +0000
Subject: [PATCH 10/44] fix: constant shape folding honours Shape's end and
 negative steps

---
 crates/onnx-ir/src/simplify/constant_shape.rs | 50 ++++++++++---------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/constant_shape.rs b/crates/onnx-ir/src/simplify/constant_shape.rs
index b2e799d..7cae7a7 100644
--- a/crates/onnx-ir/src/simplify/constant_shape.rs
+++ b/crates/onnx-ir/src/simplify/constant_shape.rs
@@ -177,35 +177,23 @@ fn extract_constant_shape_dim(
         return None;
     }
 
-    // The Shape node's input must have a fully known static shape (all dims concrete)
-    let static_shape = shape_node.inputs[0].ty.static_shape_known()?;
-
-    // Account for Shape's start/end attributes (opset 15+)
-    let rank = static_shape.len();
-    let mut start = shape_node
-        .attrs
-        .get("start")
-        .map(|v| v.clone().into_i64())
-        .unwrap_or(0);
-    if start < 0 {
-        start += rank as i64;
-    }
-    let start = start.max(0) as usize;
+    // The Shape node's input must have a fully known static shape (all dims concrete).
+    // This accounts for Shape's start/end attributes (opset 15+).
+    let shape_values = extract_full_static_shape(shape_node)?;
 
     // Gather's index (input[1]) must be a constant scalar
     let mut index_val = gather.inputs[1].value()?.scalar_i64().ok()?;
 
     // Handle negative indices (relative to the sliced shape length)
-    let sliced_len = static_shape.len() - start;
+    let sliced_len = shape_values.len() as i64;
     if index_val < 0 {
-        index_val += sliced_len as i64;
+        index_val += sliced_len;
     }
-    if index_val < 0 || index_val as usize >= sliced_len {
+    if index_val < 0 || index_val >= sliced_len {
         return None;
     }
 
-    let dim_idx = start + index_val as usize;
-    Some(static_shape[dim_idx] as i64)
+    Some(shape_values[index_val as usize])
 }
 
 /// Extract the full static shape from a Shape node, accounting for start/end attributes.
@@ -221,7 +209,7 @@ fn extract_full_static_shape(shape_node: &RawNode) -> Option<Vec<i64>> {
     if start < 0 {
         start += rank as i64;
     }
-    let start = start.max(0) as usize;
+    let start = start.clamp(0, rank as i64) as usize;
 
     let mut end = shape_node
         .attrs
@@ -231,7 +219,7 @@ fn extract_full_static_shape(shape_node: &RawNode) -> Option<Vec<i64>> {
     if end < 0 {
         end += rank as i64;
     }
-    let end = (end as usize).min(rank);
+    let end = end.clamp(0, rank as i64) as usize;
 
     if start >= end {
         return Some(vec![]);
@@ -260,6 +248,9 @@ fn extract_constant_shape_slice(
     }
 
     let shape_values = extract_full_static_shape(shape_node)?;
+    if shape_values.is_empty() {
+        return None;
+    }
     let shape_len = shape_values.len() as i64;
 
     // Extract constant starts
@@ -318,9 +309,15 @@ fn extract_constant_shape_slice(
         end += shape_len;
     }
 
-    // Clamp to bounds
-    start = start.clamp(0, shape_len);
-    end = end.clamp(0, shape_len);
+    // Clamp to bounds: a negative step starts at the last element at most and may run
+    // down to (and including) the first one
+    if step > 0 {
+        start = start.clamp(0, shape_len);
+        end = end.clamp(0, shape_len);
+    } else {
+        start = start.clamp(0, shape_len - 1);
+        end = end.clamp(-1, shape_len - 1);
+    }
 
     // Compute the sliced result
     let result: Vec<i64> = if step > 0 {
@@ -339,6 +336,11 @@ fn extract_constant_shape_slice(
         vals
     };
 
+    // An empty constant has no representation as a shape
+    if result.is_empty() {
+        return None;
+    }
+
     Some(result)
 }
 
-- 
2.43.0


From b9093764f2bf5822c727a2ee6da8c21ce8ec925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:01 +0000
Subject: [PATCH 11/44] fix: do not coalesce attention over a graph output or a
 mask without key dimension

---
 .../src/simplify/coalesce_attention.rs        | 22 +++++++++++++++++--
 crates/onnx-ir/src/simplify/mod.rs            |  4 ++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/coalesce_attention.rs b/crates/onnx-ir/src/simplify/coalesce_attention.rs
index c4c1996..74213d9 100644
--- a/crates/onnx-ir/src/simplify/coalesce_attention.rs
+++ b/crates/onnx-ir/src/simplify/coalesce_attention.rs
@@ -28,11 +28,18 @@ use crate::ir::{ArgType, Argument, AttributeValue, NodeType, RawNode, TensorData
 ///
 /// Seeds on Softmax nodes (invariant anchor in every SDPA variant), then traces
 /// backward/forward to match the full pattern.
-pub(crate) fn coalesce_attention(mut nodes: Vec<RawNode>) -> Vec<RawNode> {
+pub(crate) fn coalesce_attention_in_graph(
+    mut nodes: Vec<RawNode>,
+    graph_outputs: &[Argument],
+) -> Vec<RawNode> {
     // Build producer map: output_name -> node_index
     let producer = build_producer_map(&nodes);
     // Build consumer map: output_name -> list of node indices that consume it
-    let consumer = build_consumer_map(&nodes);
+    let mut consumer = build_consumer_map(&nodes);
+    // A value the graph returns stays needed, so it never counts as single use
+    for output in graph_outputs {
+        consumer.remove(&output.name);
+    }
 
     // Collect replacements: (node_index, replacement_node)
     let mut replacements: Vec<(usize, RawNode)> = Vec::new();
@@ -212,6 +219,11 @@ fn try_extract_mask_and_upstream<'a>(
         let upstream_name = &add_node.inputs[upstream_idx].name;
         let mask_arg = &add_node.inputs[mask_idx];
 
+        // Attention takes a mask with at least a query and a key dimension
+        if mask_arg.ty.rank() < 2 {
+            continue;
+        }
+
         // The upstream path should lead to a Div/Mul(scale) or directly to MatMul
         if let Some(&node_idx) = producer.get(upstream_name.as_str()) {
             let upstream_node = &nodes[node_idx];
@@ -594,6 +606,12 @@ fn build_consumer_map(nodes: &[RawNode]) -> HashMap<String, Vec<usize>> {
     map
 }
 
+/// [`coalesce_attention_in_graph`] for a graph none of whose outputs is part of a pattern.
+#[cfg(test)]
+pub(crate) fn coalesce_attention(nodes: Vec<RawNode>) -> Vec<RawNode> {
+    coalesce_attention_in_graph(nodes, &[])
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/onnx-ir/src/simplify/mod.rs b/crates/onnx-ir/src/simplify/mod.rs
index b96ea32..3f83a3d 100644
--- a/crates/onnx-ir/src/simplify/mod.rs
+++ b/crates/onnx-ir/src/simplify/mod.rs
@@ -45,7 +45,7 @@ use crate::{
     ir::{Argument, RawNode},
 };
 
-use coalesce_attention::coalesce_attention;
+use coalesce_attention::coalesce_attention_in_graph;
 use constant_fold::fold_constants;
 use constant_shape::simplify_constant_shape;
 use dead_nodes::eliminate_dead_nodes;
@@ -73,7 +73,7 @@ pub(crate) fn simplify_graph(
 
         // Attention coalescing (must run before permute-reshape, since attention
         // pattern uses native Transpose nodes, not Reshape-based transposes)
-        nodes = coalesce_attention(nodes);
+        nodes = coalesce_attention_in_graph(nodes, &outputs);
 
         // Structural pattern detection (must run before constant folding, which
         // replaces Gather/Slice nodes with Constants and destroys the patterns)
-- 
2.43.0


From 56c20355c66e723a10bc1f5f73d8720d2cb608fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:01 +0000
Subject: [PATCH 12/44] fix: clamp Shape's start and end to the rank

---
 crates/onnx-ir/src/node/shape.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/onnx-ir/src/node/shape.rs b/crates/onnx-ir/src/node/shape.rs
index 1409e97..0f9b832 100644
--- a/crates/onnx-ir/src/node/shape.rs
+++ b/crates/onnx-ir/src/node/shape.rs
@@ -124,14 +124,10 @@ impl NodeProcessor for ShapeProcessor {
             end_dim += rank as i64;
         }
 
-        // TODO: Missing clamping to [0, rank] as per ONNX spec - out-of-bounds positive values are not clamped.
-        // The spec explicitly states: "Values are clamped to [0, rank]" but implementation only normalizes negative indices.
-        // This could lead to panics or incorrect results when start/end exceed rank.
-        // Should add: start_dim = start_dim.max(0).min(rank); end_dim = end_dim.max(0).min(rank);
-
-        // Calculate dimensions
-        let start = start_dim as usize;
-        let end = end_dim as usize;
+        // Values are clamped to [0, rank]; an empty selection has length zero
+        let start = start_dim.clamp(0, rank as i64) as usize;
+        let end = end_dim.clamp(0, rank as i64) as usize;
+        let end = end.max(start);
 
         let config = ShapeConfig { start, end };
         Ok(config)
-- 
2.43.0


From 24dff89ec9761b6bb34b76ec94e77954a8d6f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:12 +0000
Subject: [PATCH 13/44] fix: subgraphs capturing their node's own inputs or
 shape values

A value that is an input of an If, Loop or Scan node and is captured by its
subgraph too was not passed to the subgraph, which then saw it with no type.
Captured shape values were not bound in the generated block.
---
 .../src/burn/node/subgraph_helper.rs          | 25 +++++++++++++++++--
 crates/onnx-ir/src/phases/node_conversion.rs  |  8 ++----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/subgraph_helper.rs b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
index 640c4ab..9c6d833 100644
--- a/crates/burn-onnx/src/burn/node/subgraph_helper.rs
+++ b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
@@ -76,12 +76,11 @@ pub(super) fn generate_outer_scope_bindings(
                         let #var_name = #outer_var.clone();
                     });
                 }
-                ArgType::ScalarNative(_) => {
+                ArgType::ScalarNative(_) | ArgType::Shape(_) => {
                     bindings.extend(quote! {
                         let #var_name = #outer_var;
                     });
                 }
-                _ => {}
             }
         }
     }
@@ -156,3 +155,25 @@ pub(super) fn generate_subgraph_forward_code(
 
     code
 }
+
+/// Value a loop-carried or state variable starts from.
+///
+/// The subgraph may read the same outer value (as another initial value, as a scan sequence
+/// or by capturing it), so the value is cloned when the node has it as a later input too.
+pub(super) fn initial_value(
+    inputs: &[Argument],
+    index: usize,
+    scope: &mut ScopeAtPosition<'_>,
+) -> TokenStream {
+    let initial = &inputs[index];
+    let shared = !initial.name.is_empty()
+        && inputs[index + 1..]
+            .iter()
+            .any(|input| input.name == initial.name);
+    if shared && matches!(initial.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_)) {
+        let name = arg_to_ident(initial);
+        quote! { #name.clone() }
+    } else {
+        scope.arg(initial)
+    }
+}
diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index aed289f..4f9dccd 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -92,12 +92,8 @@ fn convert_nodes_impl(
                 let state = state_rc.borrow();
                 let mut scope_ref_names: Vec<String> = Vec::new();
                 for ref_name in outer_refs {
-                    // Skip references that are already in the node's inputs
-                    if node.inputs.iter().any(|i| i.name == ref_name) {
-                        log::debug!("Skipping '{}' - already in node inputs", ref_name);
-                        continue;
-                    }
-
+                    // A reference may be one of the node's own inputs as well. It is still listed
+                    // here: subgraphs only resolve the values that are listed as references.
                     // Create an argument for this outer-scope reference
                     // The type will be resolved from the parent graph
                     let arg = state.init_in(&ref_name);
-- 
2.43.0


From 4d16a8bc2794391e99d79de29bc57fe9c7898fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:12 +0000
Subject: [PATCH 14/44] fix: Loop states that are shared, swapped or returned
 twice

Initial values read again by the body were moved, and the states were assigned
one after the other, so that a state could receive another one's new value.
---
 crates/burn-onnx/src/burn/node/loop_node.rs | 35 +++++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/loop_node.rs b/crates/burn-onnx/src/burn/node/loop_node.rs
index 993e754..453d41c 100644
--- a/crates/burn-onnx/src/burn/node/loop_node.rs
+++ b/crates/burn-onnx/src/burn/node/loop_node.rs
@@ -152,9 +152,9 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
         // Initialize loop-carried dependency variables
         // Only mark as mutable if the variable is actually updated (different name from output)
         let mut init_stmts = quote! {};
-        for (idx, initial_arg) in v_initial_args.iter().enumerate() {
+        for idx in 0..v_initial_args.len() {
             let var_name = &loop_var_names[idx];
-            let init_value = arg_to_ident(initial_arg);
+            let init_value = subgraph_helper::initial_value(&self.inputs, idx + 2, scope);
 
             // Check if this variable will be updated (different name means it gets assigned)
             let needs_mut = idx < num_loop_carried_outputs
@@ -219,15 +219,30 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
 
         // Update loop-carried variables after iteration
         // Skip self-assignments when body passes through a value unchanged (same name)
-        let mut update_vars = quote! {};
-        for (idx, out_name) in loop_out_names.iter().enumerate() {
-            let var_name = &loop_var_names[idx];
-            if var_name != out_name {
-                update_vars.extend(quote! {
-                    #var_name = #out_name;
-                });
+        let updates: Vec<_> = loop_var_names
+            .iter()
+            .zip(&loop_out_names)
+            .filter(|(var_name, out_name)| var_name != out_name)
+            .collect();
+        // A body output that is itself a loop-carried variable, or that is returned twice,
+        // has to be read before any of the variables is assigned
+        let shared = updates.iter().enumerate().any(|(idx, (_, out_name))| {
+            loop_var_names.contains(out_name)
+                || updates[idx + 1..]
+                    .iter()
+                    .any(|(_, other)| other == out_name)
+        });
+        let update_vars = if shared {
+            let (vars, outs): (Vec<_>, Vec<_>) = updates.into_iter().unzip();
+            quote! {
+                (#(#vars,)*) = (#(#outs.clone(),)*);
             }
-        }
+        } else {
+            updates
+                .into_iter()
+                .map(|(var_name, out_name)| quote! { #var_name = #out_name; })
+                .collect()
+        };
 
         // Update condition from body output (skip if same name)
         let update_cond = if cond_in_name != cond_out_name {
-- 
2.43.0


From e53cef51a23333bfb8f2ccedc83627dc7f5a74d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:12 +0000
Subject: [PATCH 15/44] fix: Scan states assigned at once, negative axes,
 unused scan outputs

Scan outputs were collected after the states had changed, initial values read
again by the body were moved, negative scan axes were used as they are.
---
 crates/burn-onnx/src/burn/node/scan_node.rs | 67 ++++++++++++---------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/scan_node.rs b/crates/burn-onnx/src/burn/node/scan_node.rs
index c846c08..2e3be0c 100644
--- a/crates/burn-onnx/src/burn/node/scan_node.rs
+++ b/crates/burn-onnx/src/burn/node/scan_node.rs
@@ -40,6 +40,15 @@ fn generate_scan_body_code(
     }
 }
 
+/// Resolve a scan axis, which counts from the end when it is negative.
+fn normalize_axis(axis: i64, rank: usize) -> usize {
+    if axis < 0 {
+        (axis + rank as i64) as usize
+    } else {
+        axis as usize
+    }
+}
+
 impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
     fn inputs(&self) -> &[Argument] {
         &self.inputs
@@ -62,7 +71,6 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             self.inputs.iter().skip(num_onnx_inputs).cloned().collect();
 
         // Split ONNX inputs into state variables and scan input sequences
-        let initial_state_vars: Vec<_> = self.inputs.iter().take(num_state_vars).collect();
         let scan_input_sequences: Vec<_> = self
             .inputs
             .iter()
@@ -76,7 +84,10 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
 
         // Get sequence length from first scan input
         let first_scan_input = scan_input_sequences[0];
-        let scan_axis = self.config.scan_input_axes.first().copied().unwrap_or(0) as usize;
+        let scan_axis = normalize_axis(
+            self.config.scan_input_axes.first().copied().unwrap_or(0),
+            first_scan_input.ty.rank(),
+        );
         let first_scan_name = arg_to_ident(first_scan_input);
         let seq_len_expr = quote! { #first_scan_name.shape()[#scan_axis] };
 
@@ -91,9 +102,8 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             .map(arg_to_ident)
             .collect();
 
-        for (idx, initial_arg) in initial_state_vars.iter().enumerate() {
-            let var_name = &state_var_names[idx];
-            let init_value = arg_to_ident(initial_arg);
+        for (idx, var_name) in state_var_names.iter().enumerate() {
+            let init_value = subgraph_helper::initial_value(&self.inputs, idx, scope);
             init_stmts.extend(quote! {
                 let mut #var_name = #init_value;
             });
@@ -141,8 +151,6 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 .copied()
                 .unwrap_or(0)
                 == 1;
-            let scan_axis = self.config.scan_input_axes.get(idx).copied().unwrap_or(0) as usize;
-
             let iter_expr = if reverse {
                 quote! { seq_len - i - 1 }
             } else {
@@ -155,6 +163,10 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             };
             let input_rank = tensor_ty.rank;
             let output_rank = input_rank - 1;
+            let scan_axis = normalize_axis(
+                self.config.scan_input_axes.get(idx).copied().unwrap_or(0),
+                input_rank,
+            );
 
             // Slice along scan axis and squeeze to remove that dimension
             slice_stmts.extend(quote! {
@@ -187,29 +199,25 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             node_position,
         );
 
-        // Update state variables and collect scan outputs
+        // Collect scan outputs and update state variables
         let mut update_stmts = quote! {};
 
-        // Update state variables (clone if there are scan outputs)
-        let should_clone = num_scan_outputs > 0;
-        for (idx, var_name) in state_var_names.iter().enumerate() {
-            let out_name = arg_to_ident(&self.config.body.outputs[idx]);
-            if should_clone {
-                update_stmts.extend(quote! {
-                    #var_name = #out_name.clone();
-                });
-            } else {
-                update_stmts.extend(quote! {
-                    #var_name = #out_name;
-                });
-            }
-        }
-
-        // Collect scan outputs
+        // Collect scan outputs before the state variables change: an output may be a state
+        // variable itself
         for (idx, collector) in scan_output_collectors.iter().enumerate() {
             let body_out_name = arg_to_ident(&self.config.body.outputs[num_state_vars + idx]);
             update_stmts.extend(quote! {
-                #collector.push(#body_out_name);
+                #collector.push(#body_out_name.clone());
+            });
+        }
+
+        // Update state variables, all of them at once: a new state may be another state's old value
+        if num_state_vars > 0 {
+            let state_out_names = self.config.body.outputs[..num_state_vars]
+                .iter()
+                .map(arg_to_ident);
+            update_stmts.extend(quote! {
+                (#(#state_var_names,)*) = (#(#state_out_names.clone(),)*);
             });
         }
 
@@ -242,9 +250,14 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 });
             }
 
-            let stack_axis = self.config.scan_output_axes.get(idx).copied().unwrap_or(0) as usize;
+            // Stacking adds the scan axis to the rank of the body output
+            let stacked_rank = self.config.body.outputs[num_state_vars + idx].ty.rank() + 1;
+            let stack_axis = normalize_axis(
+                self.config.scan_output_axes.get(idx).copied().unwrap_or(0),
+                stacked_rank,
+            );
             finalize_stmts.extend(quote! {
-                let #output_name = Tensor::stack(#collector.clone(), #stack_axis);
+                let #output_name = Tensor::stack::<#stacked_rank>(#collector.clone(), #stack_axis);
             });
         }
 
-- 
2.43.0


From 02a736b41517da4662d3d09a338ec696af42b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:58 +0000
Subject: [PATCH 16/44] fix: captured values are not used up by the branches of
 an If

Each branch counted as one use of the value, although the node as a whole was
registered as one, so that a value used again afterwards was moved.
---
 crates/burn-onnx/src/burn/node/subgraph_helper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/subgraph_helper.rs b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
index 9c6d833..ada2b65 100644
--- a/crates/burn-onnx/src/burn/node/subgraph_helper.rs
+++ b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
@@ -68,15 +68,17 @@ pub(super) fn generate_outer_scope_bindings(
 
         if let Some(outer_input) = outer_scope_inputs.get(idx) {
             let var_name = quote::format_ident!("{}", scope_ref_name);
-            let outer_var = scope.at_position(node_position).arg(outer_input);
-
             match &outer_input.ty {
                 ArgType::Tensor(_) | ArgType::ScalarTensor(_) => {
+                    // Always cloned: each branch has its own binding, and the value may still
+                    // be used after the node, so a binding never uses the value up.
+                    let outer_var = arg_to_ident(outer_input);
                     bindings.extend(quote! {
                         let #var_name = #outer_var.clone();
                     });
                 }
                 ArgType::ScalarNative(_) | ArgType::Shape(_) => {
+                    let outer_var = scope.at_position(node_position).arg(outer_input);
                     bindings.extend(quote! {
                         let #var_name = #outer_var;
                     });
-- 
2.43.0


From ebb02a9b796483c3f3c09ec008befc0181e65b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:36 +0000
Subject: [PATCH 17/44] fix: node names are unique across the subgraphs of
 different nodes

Each If, Loop and Scan numbered the nodes of its subgraphs anew, so that the
constants of two of them became one field of the generated module.
---
 crates/onnx-ir/src/phases/node_conversion.rs | 77 +++++---------------
 1 file changed, 20 insertions(+), 57 deletions(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 4f9dccd..9dd865c 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -39,26 +39,23 @@ fn convert_nodes_impl(
     state_rc: &Rc<RefCell<GraphState>>,
     opset_version: usize,
 ) -> Result<(), Error> {
-    let mut node_name_counter: HashMap<NodeType, usize> = HashMap::new();
-
-    // Get the name registry (if available)
+    // Get the name registry. It is shared with all subgraphs, which are built later, so that
+    // their nodes never get the name of a node of this graph or of another subgraph.
     let name_registry = {
         let state = state_rc.borrow();
 
         if let Some(registry) = state.name_registry() {
             // Registry is shared, already initialized with constant count from initializers
-            Some(registry.clone())
+            registry.clone()
         } else {
-            // Fall back to local counter for backwards compatibility
+            let registry = crate::graph_state::NameRegistry::new();
             let constant_count = state
                 .processed_nodes
                 .iter()
                 .filter(|n| n.node_type == NodeType::Constant)
                 .count();
-            if constant_count > 0 {
-                node_name_counter.insert(NodeType::Constant, constant_count);
-            }
-            None
+            registry.set_initial_counter(&NodeType::Constant, constant_count);
+            registry
         }
     };
 
@@ -125,31 +122,13 @@ fn convert_nodes_impl(
                 );
             }
 
-            // Pass the current graph's NameRegistry to ensure unique names across nested subgraphs
-            // If no registry exists, create one and initialize with current node counts
-            let parent_registry = if let Some(registry) = state_rc.borrow().name_registry().cloned()
-            {
-                registry
-            } else {
-                // Create new registry and initialize with current node name counters
-                let registry = crate::graph_state::NameRegistry::new();
-                // Initialize counters from the current graph's already-named nodes
-                // IMPORTANT: Increment by 1 to account for the current node which will be
-                // renamed later using the local counter
-                for (node_type, count) in &node_name_counter {
-                    registry.set_initial_counter(node_type, count + 1);
-                }
-                // Also account for the current node's type
-                registry.set_initial_counter(&node.node_type, 1);
-                registry
-            };
-
             // Convert graph attributes - now creates DeferredGraph instead of building immediately
             let base_path = state_rc.borrow().base_path().map(|p| p.to_path_buf());
             let graph_attrs = crate::proto_conversion::convert_graph_attributes(
                 node_proto,
                 opset_version,
-                Some(parent_registry),
+                // Ensures unique names across nested subgraphs
+                Some(name_registry.clone()),
                 base_path.as_deref(),
             );
             // Merge graph attributes with existing attributes
@@ -170,7 +149,7 @@ fn convert_nodes_impl(
         remap_node_type(&mut node);
 
         // Rename node with counter
-        rename_node(&mut node, &mut node_name_counter, name_registry.as_ref());
+        rename_node(&mut node, &name_registry);
 
         // Track node type before coalesce (may change it)
         let node_type_before = node.node_type.clone();
@@ -183,7 +162,7 @@ fn convert_nodes_impl(
 
         // Rename if coalesce changed node type
         if node.node_type != node_type_before {
-            rename_node(&mut node, &mut node_name_counter, name_registry.as_ref());
+            rename_node(&mut node, &name_registry);
         }
 
         // Lift constants and extract config
@@ -322,32 +301,16 @@ fn attach_value_stores(node: &mut RawNode, state_rc: &Rc<RefCell<GraphState>>) {
     }
 }
 
-/// Rename node with type-based counter
-fn rename_node(
-    node: &mut RawNode,
-    counters: &mut HashMap<NodeType, usize>,
-    name_registry: Option<&crate::graph_state::NameRegistry>,
-) {
-    // If registry is available, use it to generate unique names across subgraphs
-    if let Some(registry) = name_registry {
-        let old_name = node.name.clone();
-        node.name = registry.generate_node_name(&node.node_type);
-        log::debug!(
-            "Renamed node: '{}' -> '{}' (type: {:?})",
-            old_name,
-            node.name,
-            node.node_type
-        );
-    } else {
-        // Fall back to local counter for backwards compatibility
-        counters
-            .entry(node.node_type.clone())
-            .and_modify(|e| *e += 1)
-            .or_insert(1);
-
-        let new_name = format!("{}{}", node.node_type, counters[&node.node_type]).to_lowercase();
-        node.name = new_name;
-    }
+/// Rename node with type-based counter, unique across subgraphs
+fn rename_node(node: &mut RawNode, name_registry: &crate::graph_state::NameRegistry) {
+    let old_name = node.name.clone();
+    node.name = name_registry.generate_node_name(&node.node_type);
+    log::debug!(
+        "Renamed node: '{}' -> '{}' (type: {:?})",
+        old_name,
+        node.name,
+        node.node_type
+    );
 }
 
 /// Remap node type using kernel shape
-- 
2.43.0


From 664a315d6e19d258657217eb98a086cc64efa638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 18/44] fix: operators that change extents do not claim their
 operand's static shape

---
 crates/onnx-ir/src/node/conv1d.rs           |  8 +++-
 crates/onnx-ir/src/node/conv2d.rs           | 13 +++++-
 crates/onnx-ir/src/node/conv3d.rs           | 14 ++++++-
 crates/onnx-ir/src/node/conv_transpose1d.rs |  4 +-
 crates/onnx-ir/src/node/conv_transpose2d.rs |  4 +-
 crates/onnx-ir/src/node/conv_transpose3d.rs |  4 +-
 crates/onnx-ir/src/node/expand.rs           | 20 +++++++++-
 crates/onnx-ir/src/node/global_avg_pool.rs  |  6 ++-
 crates/onnx-ir/src/node/max_pool1d.rs       |  4 +-
 crates/onnx-ir/src/node/max_pool2d.rs       |  4 +-
 crates/onnx-ir/src/node/pad.rs              | 13 +++++-
 crates/onnx-ir/src/node/reduce.rs           | 10 +++++
 crates/onnx-ir/src/node/resize.rs           |  4 +-
 crates/onnx-ir/src/node/slice.rs            | 14 +++++--
 crates/onnx-ir/src/node/squeeze.rs          | 17 ++++++++
 crates/onnx-ir/src/node/tile.rs             |  9 ++++-
 crates/onnx-ir/src/processor.rs             | 44 +++++++++++++++++----
 17 files changed, 158 insertions(+), 34 deletions(-)

diff --git a/crates/onnx-ir/src/node/conv1d.rs b/crates/onnx-ir/src/node/conv1d.rs
index 92faaaf..62d66bb 100644
--- a/crates/onnx-ir/src/node/conv1d.rs
+++ b/crates/onnx-ir/src/node/conv1d.rs
@@ -199,10 +199,16 @@ impl NodeProcessor for Conv1dProcessor {
                     .as_ref()
                     .and_then(|s| s.get(2).copied().flatten())?;
                 let (pad_left, pad_right) = config.padding.as_tuple();
-                let padding = pad_left + pad_right;
                 let dilation = config.dilation;
                 let kernel = config.kernel_size;
                 let stride = config.stride;
+                let padding = match config.auto_pad {
+                    AutoPad::NotSet => pad_left + pad_right,
+                    AutoPad::Valid => 0,
+                    // L_out = ceil(L_in / stride)
+                    _ if stride == 0 => return None,
+                    _ => return Some(l_in.div_ceil(stride)),
+                };
                 // L_out = floor((L_in + padding - dilation * (kernel - 1) - 1) / stride + 1)
                 let numerator = l_in as isize + padding as isize
                     - dilation as isize * (kernel as isize - 1)
diff --git a/crates/onnx-ir/src/node/conv2d.rs b/crates/onnx-ir/src/node/conv2d.rs
index e946e6f..c18f9ff 100644
--- a/crates/onnx-ir/src/node/conv2d.rs
+++ b/crates/onnx-ir/src/node/conv2d.rs
@@ -193,7 +193,8 @@ impl NodeProcessor for Conv2dProcessor {
                         .and_then(|s| s.first().copied().flatten())
                 });
 
-            let compute_spatial = |dim_idx: usize,
+            let compute_spatial = |auto_pad: &AutoPad,
+                                   dim_idx: usize,
                                    kernel: usize,
                                    stride: usize,
                                    dilation: usize,
@@ -204,7 +205,13 @@ impl NodeProcessor for Conv2dProcessor {
                     .static_shape
                     .as_ref()
                     .and_then(|s| s.get(dim_idx).copied().flatten())?;
-                let padding = pad_begin + pad_end;
+                let padding = match auto_pad {
+                    AutoPad::NotSet => pad_begin + pad_end,
+                    AutoPad::Valid => 0,
+                    // Output size is ceil(input_size / stride)
+                    _ if stride == 0 => return None,
+                    _ => return Some(input_dim.div_ceil(stride)),
+                };
                 let numerator = input_dim as isize + padding as isize
                     - dilation as isize * (kernel as isize - 1)
                     - 1;
@@ -217,6 +224,7 @@ impl NodeProcessor for Conv2dProcessor {
             let spatial = self.extract_config(node, _opset).ok().map(|config| {
                 let (pad_top, pad_left, pad_bottom, pad_right) = config.padding.as_tuple();
                 let h_out = compute_spatial(
+                    &config.auto_pad,
                     2,
                     config.kernel_size[0],
                     config.stride[0],
@@ -225,6 +233,7 @@ impl NodeProcessor for Conv2dProcessor {
                     pad_bottom,
                 );
                 let w_out = compute_spatial(
+                    &config.auto_pad,
                     3,
                     config.kernel_size[1],
                     config.stride[1],
diff --git a/crates/onnx-ir/src/node/conv3d.rs b/crates/onnx-ir/src/node/conv3d.rs
index f1f04eb..9d576d6 100644
--- a/crates/onnx-ir/src/node/conv3d.rs
+++ b/crates/onnx-ir/src/node/conv3d.rs
@@ -123,7 +123,8 @@ impl NodeProcessor for Conv3dProcessor {
                         .and_then(|s| s.first().copied().flatten())
                 });
 
-            let compute_spatial = |dim_idx: usize,
+            let compute_spatial = |auto_pad: &AutoPad,
+                                   dim_idx: usize,
                                    kernel: usize,
                                    stride: usize,
                                    dilation: usize,
@@ -134,7 +135,13 @@ impl NodeProcessor for Conv3dProcessor {
                     .static_shape
                     .as_ref()
                     .and_then(|s| s.get(dim_idx).copied().flatten())?;
-                let padding = pad_begin + pad_end;
+                let padding = match auto_pad {
+                    AutoPad::NotSet => pad_begin + pad_end,
+                    AutoPad::Valid => 0,
+                    // Output size is ceil(input_size / stride)
+                    _ if stride == 0 => return None,
+                    _ => return Some(input_dim.div_ceil(stride)),
+                };
                 let numerator = input_dim as isize + padding as isize
                     - dilation as isize * (kernel as isize - 1)
                     - 1;
@@ -148,6 +155,7 @@ impl NodeProcessor for Conv3dProcessor {
                 let (pad_front, pad_top, pad_left, pad_back, pad_bottom, pad_right) =
                     config.padding.as_tuple();
                 let d_out = compute_spatial(
+                    &config.auto_pad,
                     2,
                     config.kernel_size[0],
                     config.stride[0],
@@ -156,6 +164,7 @@ impl NodeProcessor for Conv3dProcessor {
                     pad_back,
                 );
                 let h_out = compute_spatial(
+                    &config.auto_pad,
                     3,
                     config.kernel_size[1],
                     config.stride[1],
@@ -164,6 +173,7 @@ impl NodeProcessor for Conv3dProcessor {
                     pad_bottom,
                 );
                 let w_out = compute_spatial(
+                    &config.auto_pad,
                     4,
                     config.kernel_size[2],
                     config.stride[2],
diff --git a/crates/onnx-ir/src/node/conv_transpose1d.rs b/crates/onnx-ir/src/node/conv_transpose1d.rs
index ecd0a9f..c68f7d3 100644
--- a/crates/onnx-ir/src/node/conv_transpose1d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose1d.rs
@@ -102,8 +102,8 @@ impl NodeProcessor for Convtranspose1dProcessor {
             }
         }
 
-        // Output type inference
-        crate::processor::same_as_input(node);
+        // Output type inference: only the batch extent is the input's
+        crate::processor::same_as_input_keeping(node, |axis| axis == 0);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/conv_transpose2d.rs b/crates/onnx-ir/src/node/conv_transpose2d.rs
index 3ea3108..18a4f42 100644
--- a/crates/onnx-ir/src/node/conv_transpose2d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose2d.rs
@@ -103,8 +103,8 @@ impl NodeProcessor for Convtranspose2dProcessor {
             }
         }
 
-        // Output type inference
-        crate::processor::same_as_input(node);
+        // Output type inference: only the batch extent is the input's
+        crate::processor::same_as_input_keeping(node, |axis| axis == 0);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/conv_transpose3d.rs b/crates/onnx-ir/src/node/conv_transpose3d.rs
index b76d44b..df8a5d4 100644
--- a/crates/onnx-ir/src/node/conv_transpose3d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose3d.rs
@@ -76,8 +76,8 @@ impl NodeProcessor for Convtranspose3dProcessor {
         _opset: usize,
         _output_preferences: &OutputPreferences,
     ) -> Result<(), ProcessError> {
-        // Output type inference
-        crate::processor::same_as_input(node);
+        // Output type inference: only the batch extent is the input's
+        crate::processor::same_as_input_keeping(node, |axis| axis == 0);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/expand.rs b/crates/onnx-ir/src/node/expand.rs
index e489f2d..effd6fd 100644
--- a/crates/onnx-ir/src/node/expand.rs
+++ b/crates/onnx-ir/src/node/expand.rs
@@ -117,7 +117,7 @@ impl NodeProcessor for ExpandProcessor {
                 node.outputs[0].ty = ArgType::Tensor(TensorType {
                     dtype: input_elem_type,
                     rank: shape.len(),
-                    static_shape: Some(shape.iter().map(|&dim| Some(dim as usize)).collect()),
+                    static_shape: Some(expanded_shape(&node.inputs[0].ty, &shape)),
                 });
             }
             ExpandConfig::Runtime(_) => {
@@ -207,6 +207,24 @@ impl NodeProcessor for ExpandProcessor {
     }
 }
 
+/// The extents of the result: broadcasting is two-way, so where the target is 1 the input's extent remains
+fn expanded_shape(input: &ArgType, shape: &[i64]) -> Vec<Option<usize>> {
+    let offset = shape.len().saturating_sub(input.rank());
+    shape
+        .iter()
+        .enumerate()
+        .map(|(axis, &dim)| match dim {
+            _ if dim != 1 && dim >= 0 => Some(dim as usize),
+            1 if axis < offset => Some(1),
+            _ => match input.static_shape() {
+                Some(extents) => extents.get(axis - offset).copied().flatten(),
+                None if input.rank() == 0 => Some(1),
+                None => None,
+            },
+        })
+        .collect()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/onnx-ir/src/node/global_avg_pool.rs b/crates/onnx-ir/src/node/global_avg_pool.rs
index 6bc0c83..0204e5e 100644
--- a/crates/onnx-ir/src/node/global_avg_pool.rs
+++ b/crates/onnx-ir/src/node/global_avg_pool.rs
@@ -53,7 +53,11 @@ impl NodeProcessor for GlobalAveragePoolProcessor {
         };
 
         // Output has the same type and rank as input (spatial dimensions become 1)
-        node.outputs[0].ty = ArgType::Tensor(input_tensor.clone());
+        let mut output_tensor = input_tensor.clone();
+        if let Some(shape) = &mut output_tensor.static_shape {
+            shape.iter_mut().skip(2).for_each(|dim| *dim = Some(1));
+        }
+        node.outputs[0].ty = ArgType::Tensor(output_tensor);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/max_pool1d.rs b/crates/onnx-ir/src/node/max_pool1d.rs
index e06f39a..e229e4e 100644
--- a/crates/onnx-ir/src/node/max_pool1d.rs
+++ b/crates/onnx-ir/src/node/max_pool1d.rs
@@ -148,8 +148,8 @@ impl NodeProcessor for MaxPool1dProcessor {
             }
         }
 
-        // Output type is same as input
-        crate::processor::same_as_input(node);
+        // Pooling preserves the batch and channel extents only
+        crate::processor::same_as_input_keeping(node, |axis| axis < 2);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/max_pool2d.rs b/crates/onnx-ir/src/node/max_pool2d.rs
index 0be4776..523c59e 100644
--- a/crates/onnx-ir/src/node/max_pool2d.rs
+++ b/crates/onnx-ir/src/node/max_pool2d.rs
@@ -144,8 +144,8 @@ impl NodeProcessor for MaxPool2dProcessor {
             }
         }
 
-        // Output type is same as input
-        crate::processor::same_as_input(node);
+        // Pooling preserves the batch and channel extents only
+        crate::processor::same_as_input_keeping(node, |axis| axis < 2);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/pad.rs b/crates/onnx-ir/src/node/pad.rs
index 6efa21d..347a9b2 100644
--- a/crates/onnx-ir/src/node/pad.rs
+++ b/crates/onnx-ir/src/node/pad.rs
@@ -177,9 +177,18 @@ impl NodeProcessor for PadProcessor {
         // Should validate mode attribute early in infer_types for better error messages.
         // Location: After output count validation
 
-        // Output has same type as input
+        // Output has same type as input, except the padded axes
         if let Some(input) = node.inputs.first() {
-            node.outputs[0].ty = input.ty.clone();
+            let rank = input.ty.rank();
+            let has_axes = node.inputs.get(3).is_some_and(|axes| !axes.is_optional());
+            let pads = match node.inputs.get(1).and_then(|pads| pads.value()) {
+                Some(pads) => pads.to_i64_vec().ok(),
+                None => node.attrs.get("pads").map(|pads| pads.clone().into_i64s()),
+            };
+            crate::processor::same_as_input_keeping(node, |axis| match &pads {
+                Some(pads) => !has_axes && pads.get(axis) == Some(&0) && pads.get(axis + rank) == Some(&0),
+                None => false,
+            });
         }
 
         Ok(())
diff --git a/crates/onnx-ir/src/node/reduce.rs b/crates/onnx-ir/src/node/reduce.rs
index d05ea41..b66e8a0 100644
--- a/crates/onnx-ir/src/node/reduce.rs
+++ b/crates/onnx-ir/src/node/reduce.rs
@@ -202,6 +202,11 @@ impl NodeProcessor for ReduceProcessor {
         let dims = config.dims.clone();
         let keepdims = if config.keepdims { 1 } else { 0 };
 
+        let has_runtime_axes = node
+            .inputs
+            .get(1)
+            .is_some_and(|axes| !axes.is_optional() && axes.value().is_none());
+
         // Determine if the output should be a scalar
         let should_be_scalar = keepdims == 0 && (dims.is_empty() || dims.len() == tensor_rank);
 
@@ -224,6 +229,11 @@ impl NodeProcessor for ReduceProcessor {
                     return None;
                 }
 
+                // Axes computed at run time leave every extent open
+                if config.dims.is_empty() && has_runtime_axes {
+                    return None;
+                }
+
                 if keepdims == 1 {
                     for dim in &dims {
                         shape[*dim] = Some(1);
diff --git a/crates/onnx-ir/src/node/resize.rs b/crates/onnx-ir/src/node/resize.rs
index 1679e0e..a7ede75 100644
--- a/crates/onnx-ir/src/node/resize.rs
+++ b/crates/onnx-ir/src/node/resize.rs
@@ -414,8 +414,8 @@ impl NodeProcessor for ResizeProcessor {
             ));
         }
 
-        // Infer output type
-        crate::processor::same_as_input(node);
+        // Infer output type: the extents are not the input's
+        crate::processor::same_as_input_keeping(node, |_| false);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/slice.rs b/crates/onnx-ir/src/node/slice.rs
index 85d8cce..709e544 100644
--- a/crates/onnx-ir/src/node/slice.rs
+++ b/crates/onnx-ir/src/node/slice.rs
@@ -174,9 +174,17 @@ impl NodeProcessor for SliceProcessor {
 
         match input_ty {
             ArgType::Tensor(_) => {
-                // Slicing a tensor preserves its type and rank during rank inference.
-                // Shape inference pass will handle the actual shape changes.
-                node.outputs[0].ty = input_ty;
+                // Slicing a tensor preserves its type, its rank and the extents of the other axes.
+                let sliced: Option<Vec<usize>> = match (&config.axes, &config.starts) {
+                    (Some(SliceInput::Static(axes)), _) => {
+                        Some(axes.iter().map(|&axis| axis as usize).collect())
+                    }
+                    (None, SliceInput::Static(starts)) => Some((0..starts.len()).collect()),
+                    _ => None,
+                };
+                crate::processor::same_as_input_keeping(node, |axis| {
+                    sliced.as_ref().is_some_and(|sliced| !sliced.contains(&axis))
+                });
             }
             ArgType::Shape(shape_rank) => {
                 // Slicing a Shape extracts a sub-part, resulting in a Shape.
diff --git a/crates/onnx-ir/src/node/squeeze.rs b/crates/onnx-ir/src/node/squeeze.rs
index 5c9431c..dc8f511 100644
--- a/crates/onnx-ir/src/node/squeeze.rs
+++ b/crates/onnx-ir/src/node/squeeze.rs
@@ -97,6 +97,23 @@ impl NodeProcessor for SqueezeProcessor {
             None => None,
         };
 
+        // Axes computed at run time: only their number is known
+        if let (Some(SqueezeInput::Runtime(axes)), ArgType::Tensor(tensor)) =
+            (&axes, &node.inputs[0].ty)
+            && let Some([Some(count)]) = node.inputs[axes.input_index]
+                .ty
+                .static_shape()
+                .map(|shape| shape.as_slice())
+            && *count < tensor.rank
+        {
+            node.outputs[0].ty = ArgType::Tensor(TensorType {
+                dtype: tensor.dtype,
+                rank: tensor.rank - count,
+                static_shape: None,
+            });
+            return Ok(());
+        }
+
         // TODO: Missing validation that axes values are in valid range [-rank, rank-1].
         // Out-of-bounds axes should be rejected but aren't validated here.
 
diff --git a/crates/onnx-ir/src/node/tile.rs b/crates/onnx-ir/src/node/tile.rs
index a024c91..a72735e 100644
--- a/crates/onnx-ir/src/node/tile.rs
+++ b/crates/onnx-ir/src/node/tile.rs
@@ -98,8 +98,13 @@ impl NodeProcessor for TileProcessor {
         // TODO: Missing validation that repeats values are all non-negative.
         // Negative repeats don't make semantic sense and should be rejected.
 
-        // Infer output type - same as input
-        crate::processor::same_as_input(node);
+        // Infer output type - same as input, except the repeated axes
+        use crate::ir::TensorDataExt;
+        let repeats = node.inputs.get(1).and_then(|input| input.value());
+        let repeats = repeats.and_then(|data| data.to_i64_vec().ok());
+        crate::processor::same_as_input_keeping(node, |axis| {
+            matches!(&repeats, Some(repeats) if repeats.get(axis) == Some(&1))
+        });
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index d72d4f5..b2c52b4 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -549,6 +549,21 @@ pub fn same_as_input(node: &mut RawNode) {
     node.outputs[0].ty = node.inputs[0].ty.clone();
 }
 
+/// Copy input type to output, without the extents of the axes whose extent the operation changes
+pub fn same_as_input_keeping(node: &mut RawNode, keep: impl Fn(usize) -> bool) {
+    let mut ty = node.inputs[0].ty.clone();
+    if let crate::ir::ArgType::Tensor(tensor) = &mut ty
+        && let Some(shape) = &mut tensor.static_shape
+    {
+        for (axis, dim) in shape.iter_mut().enumerate() {
+            if !keep(axis) {
+                *dim = None;
+            }
+        }
+    }
+    node.outputs[0].ty = ty;
+}
+
 /// Compute broadcast output rank from multiple inputs
 pub fn compute_broadcast_rank(inputs: &[crate::ir::Argument]) -> usize {
     use crate::ir::ArgType;
@@ -566,31 +581,44 @@ pub fn compute_broadcast_rank(inputs: &[crate::ir::Argument]) -> usize {
 pub fn compute_broadcast_static_shape(
     inputs: &[crate::ir::Argument],
 ) -> Option<Vec<Option<usize>>> {
+    use crate::ir::ArgType;
+
     let static_shapes: Vec<_> = inputs
         .iter()
         .filter_map(|input| input.ty.static_shape().cloned())
         .collect();
 
-    if static_shapes.is_empty() {
+    let mut result = broadcast_static_shapes(&static_shapes)?;
+
+    if result.len() != compute_broadcast_rank(inputs) {
         return None;
     }
 
-    if static_shapes.len() == 1 {
-        let broadcast_rank = compute_broadcast_rank(inputs);
-        if broadcast_rank == static_shapes[0].len() {
-            return Some(static_shapes[0].clone());
+    // An operand whose extents are not known can stretch an extent of 1
+    let has_unknown = inputs.iter().any(|input| match &input.ty {
+        ArgType::Tensor(tensor) => tensor.static_shape.is_none(),
+        ArgType::Shape(_) => true,
+        _ => false,
+    });
+    if has_unknown {
+        for dim in result.iter_mut().filter(|dim| **dim == Some(1)) {
+            *dim = None;
         }
-        return None;
     }
 
+    Some(result)
+}
+
+/// Broadcast the known shapes against each other
+fn broadcast_static_shapes(static_shapes: &[Vec<Option<usize>>]) -> Option<Vec<Option<usize>>> {
     if static_shapes.windows(2).all(|w| w[0] == w[1]) {
-        return Some(static_shapes[0].clone());
+        return static_shapes.first().cloned();
     }
 
     let max_rank = static_shapes.iter().map(|s| s.len()).max()?;
     let mut result: Vec<Option<usize>> = vec![Some(1); max_rank];
 
-    for shape in &static_shapes {
+    for shape in static_shapes {
         let offset = max_rank - shape.len();
         for (i, dim) in shape.iter().enumerate() {
             let result_idx = offset + i;
-- 
2.43.0


From b984e87443588182c6b83d3920f16b115620abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 19/44] fix: the product of two vectors is a scalar

---
 crates/burn-onnx/src/burn/node/matmul.rs | 6 ++++++
 crates/onnx-ir/src/node/matmul.rs        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/burn-onnx/src/burn/node/matmul.rs b/crates/burn-onnx/src/burn/node/matmul.rs
index 15dea3f..fc6e77b 100644
--- a/crates/burn-onnx/src/burn/node/matmul.rs
+++ b/crates/burn-onnx/src/burn/node/matmul.rs
@@ -39,6 +39,12 @@ impl NodeCodegen for onnx_ir::matmul::MatMulNode {
         };
         let output_rank = match &output_arg.ty {
             ArgType::Tensor(t) => t.rank,
+            // The product of two vectors
+            ArgType::ScalarTensor(_) => {
+                return quote! {
+                    let #output = #lhs.mul(#rhs).sum();
+                };
+            }
             _ => panic!("output must be a tensor"),
         };
 
diff --git a/crates/onnx-ir/src/node/matmul.rs b/crates/onnx-ir/src/node/matmul.rs
index 9781517..2b56a84 100644
--- a/crates/onnx-ir/src/node/matmul.rs
+++ b/crates/onnx-ir/src/node/matmul.rs
@@ -104,6 +104,12 @@ impl NodeProcessor for MatMulProcessor {
                 // When A is 2D and B is 1D: A[M, K] x B[K] -> valid
                 // Higher dimensional cases use broadcasting on batch dimensions
 
+                // The product of two vectors is a scalar
+                if a.rank == 1 && b.rank == 1 {
+                    node.outputs[0].ty = ArgType::ScalarTensor(a.dtype);
+                    return Ok(());
+                }
+
                 let mut out_rank = max(a.rank, b.rank);
                 if (a.rank >= 2 && b.rank == 1) || (a.rank == 1 && b.rank >= 2) {
                     out_rank -= 1;
-- 
2.43.0


From 027b3f6c70fa44e75a0ab5100960c06b6a936e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:09 +0000
Subject: [PATCH 20/44] fix: refuse tensor data that do not fit the declared
 shape or type

---
 crates/onnx-ir/src/proto_conversion.rs | 49 +++++++++++++++++++++-----
 crates/onnx-ir/src/tensor_store.rs     |  4 +++
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index 3e283ce..2e34c41 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -213,8 +213,11 @@ pub fn argument_from_initializer(initializer: &TensorProto) -> (Argument, Tensor
                 return (arg, td);
             }
 
-            // 2.b) Accept EMPTY tensors: dim_elems == 0 with payload_len == 0.
-            if dim_elems == 0 && payload_len == 0 && !dims.is_empty() {
+            // 2.b) Accept EMPTY tensors: dim_elems == 0 without any data.
+            let has_data = !initializer.raw_data.is_empty()
+                || !initializer.uint64_data.is_empty()
+                || initializer.data_location.enum_value() == Ok(DataLocation::EXTERNAL);
+            if dim_elems == 0 && payload_len == 0 && !has_data && !dims.is_empty() {
                 // Map ONNX data_type -> DType.
                 // (Covers common types used in initializers; extend as needed.)
                 let dtype = element_type_from_proto(initializer.data_type).unwrap_or_else(|e| {
@@ -341,6 +344,12 @@ pub fn tensor_data_ref_from_proto(
     tensor: TensorProto,
     base_path: Option<&Path>,
 ) -> Result<TensorDataRef, ParseError> {
+    if tensor.dims.iter().any(|&dim| dim < 0) {
+        return Err(ParseError::VariantNotFound(format!(
+            "Tensor '{}' has a negative dimension: {:?}",
+            tensor.name, tensor.dims
+        )));
+    }
     let shape = convert_shape(tensor.dims.clone());
     let elem = element_type_from_proto(tensor.data_type).map_err(ParseError::VariantNotFound)?;
 
@@ -368,6 +377,12 @@ pub fn tensor_data_ref_from_proto(
             | DType::U8
             | DType::Bool => {
                 check_payload_size(&tensor.name, tensor.raw_data.len() as u64, &shape, elem)?;
+                if matches!(elem, DType::Bool) && tensor.raw_data.iter().any(|&byte| byte > 1) {
+                    return Err(ParseError::VariantNotFound(format!(
+                        "Tensor '{}' has bytes that are not booleans",
+                        tensor.name
+                    )));
+                }
                 Ok(TensorDataRef::new(tensor.raw_data, shape, elem))
             }
             _ => Err(ParseError::VariantNotFound(format!(
@@ -389,24 +404,24 @@ pub fn tensor_data_ref_from_proto(
             DType::I64 => vec_to_bytes(&tensor.int64_data),
             DType::I32 => vec_to_bytes(&tensor.int32_data),
             DType::I16 => {
-                let data: Vec<i16> = tensor.int32_data.iter().map(|&x| x as i16).collect();
+                let data: Vec<i16> = narrow(&tensor.name, &tensor.int32_data)?;
                 vec_to_bytes(&data)
             }
             DType::I8 => {
-                let data: Vec<i8> = tensor.int32_data.iter().map(|&x| x as i8).collect();
+                let data: Vec<i8> = narrow(&tensor.name, &tensor.int32_data)?;
                 vec_to_bytes(&data)
             }
             DType::U64 => vec_to_bytes(&tensor.uint64_data),
             DType::U32 => {
-                let data: Vec<u32> = tensor.uint64_data.iter().map(|&x| x as u32).collect();
+                let data: Vec<u32> = narrow(&tensor.name, &tensor.uint64_data)?;
                 vec_to_bytes(&data)
             }
             DType::U16 => {
-                let data: Vec<u16> = tensor.int32_data.iter().map(|&x| x as u16).collect();
+                let data: Vec<u16> = narrow(&tensor.name, &tensor.int32_data)?;
                 vec_to_bytes(&data)
             }
             DType::U8 => {
-                let data: Vec<u8> = tensor.int32_data.iter().map(|&x| x as u8).collect();
+                let data: Vec<u8> = narrow(&tensor.name, &tensor.int32_data)?;
                 bytes::Bytes::from(data)
             }
             DType::Bool => {
@@ -415,12 +430,12 @@ pub fn tensor_data_ref_from_proto(
             }
             DType::F16 => {
                 // F16 stored as u16 bits in int32_data
-                let data: Vec<u16> = tensor.int32_data.iter().map(|&x| x as u16).collect();
+                let data: Vec<u16> = narrow(&tensor.name, &tensor.int32_data)?;
                 vec_to_bytes(&data)
             }
             DType::BF16 => {
                 // BF16 stored as u16 bits in int32_data
-                let data: Vec<u16> = tensor.int32_data.iter().map(|&x| x as u16).collect();
+                let data: Vec<u16> = narrow(&tensor.name, &tensor.int32_data)?;
                 vec_to_bytes(&data)
             }
             _ => {
@@ -435,6 +450,22 @@ pub fn tensor_data_ref_from_proto(
     }
 }
 
+/// Narrow the elements of a typed field to the type they are declared to have
+fn narrow<W: Copy + std::fmt::Display, N: TryFrom<W>>(
+    name: &str,
+    data: &[W],
+) -> Result<Vec<N>, ParseError> {
+    data.iter()
+        .map(|&x| {
+            N::try_from(x).map_err(|_| {
+                ParseError::VariantNotFound(format!(
+                    "Tensor '{name}' has element {x}, which its type does not have"
+                ))
+            })
+        })
+        .collect()
+}
+
 /// Check that a payload has exactly the bytes its declared shape and type need
 ///
 /// A tensor with too little or too much data would otherwise be passed on and read as
diff --git a/crates/onnx-ir/src/tensor_store.rs b/crates/onnx-ir/src/tensor_store.rs
index 9de8450..8492807 100644
--- a/crates/onnx-ir/src/tensor_store.rs
+++ b/crates/onnx-ir/src/tensor_store.rs
@@ -110,6 +110,10 @@ impl TensorDataRef {
                 length,
             } => Self::load_external_data(file_path, *offset, *length),
         };
+        assert!(
+            !matches!(self.dtype, DType::Bool) || bytes.iter().all(|&byte| byte <= 1),
+            "Tensor data of type bool have bytes that are not booleans"
+        );
         TensorData::from_bytes_vec(bytes, self.shape.clone(), self.dtype)
     }
 
-- 
2.43.0


From dd8bff7e1ab20f43818192adbc015589eb24a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:02 +0000
Subject: [PATCH 21/44] fix: Constant tensors stored in external files

---
 crates/onnx-ir/src/proto_conversion.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index 2e34c41..0da6f55 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -623,16 +623,32 @@ impl TryFrom<AttributeProto> for AttributeValue {
 
 /// Convert a vector of AttributeProto to a HashMap of AttributeValue
 /// Skips GRAPH and GRAPHS attributes as they need special handling with opset version
-pub fn convert_vec_attrs_proto(attrs: Vec<AttributeProto>) -> Attributes {
+/// Tensors stored in external files are resolved relative to `base_path`
+pub fn convert_vec_attrs_proto(
+    attrs: Vec<AttributeProto>,
+    base_path: Option<&Path>,
+) -> Attributes {
     let mut result = Attributes::new();
-    for attr in attrs {
+    for mut attr in attrs {
         // Skip GRAPH/GRAPHS attributes - they'll be handled separately with opset version
         if let Ok(attr_type) = attr.type_.enum_value()
             && (attr_type == AttributeType::GRAPH || attr_type == AttributeType::GRAPHS)
         {
             continue;
         }
-        result.insert(attr.name.clone(), AttributeValue::try_from(attr).unwrap());
+        let name = attr.name.clone();
+        let value = match (attr.type_.enum_value(), attr.t.take()) {
+            (Ok(AttributeType::TENSOR), Some(tensor)) => AttributeValue::Tensor(
+                tensor_data_ref_from_proto(tensor, base_path)
+                    .unwrap()
+                    .to_tensor_data(),
+            ),
+            (_, tensor) => {
+                attr.t = tensor.into();
+                AttributeValue::try_from(attr).unwrap()
+            }
+        };
+        result.insert(name, value);
     }
     result
 }
@@ -659,7 +675,7 @@ pub fn convert_node_proto(node: &NodeProto, graph_data: &GraphState) -> RawNode
         })
         .collect();
 
-    let attrs = convert_vec_attrs_proto(node.attribute.clone());
+    let attrs = convert_vec_attrs_proto(node.attribute.clone(), graph_data.base_path());
 
     let node_type = NodeType::from_str(&node.op_type).expect("Unknown node type");
 
-- 
2.43.0


From 5af0e33b37edf183c29ae621ab5210ded82d4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:34 +0000
Subject: [PATCH 22/44] fix: give every value of a model a distinct name that
 is a legal identifier

---
 crates/onnx-ir/src/lib.rs         |   1 +
 crates/onnx-ir/src/pipeline.rs    |  10 ++-
 crates/onnx-ir/src/value_names.rs | 107 ++++++++++++++++++++++++++++++
 3 files changed, 116 insertions(+), 2 deletions(-)
 create mode 100644 crates/onnx-ir/src/value_names.rs

diff --git a/crates/onnx-ir/src/lib.rs b/crates/onnx-ir/src/lib.rs
index a20fe02..61c1214 100644
--- a/crates/onnx-ir/src/lib.rs
+++ b/crates/onnx-ir/src/lib.rs
@@ -13,6 +13,7 @@ mod protos;
 mod registry;
 mod simplify;
 mod tensor_store;
+mod value_names;
 
 // Public API - only expose essentials
 pub use ir::*;
diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index 81f395c..2a9974f 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -28,7 +28,9 @@ use std::{fmt, fs::File, path::Path};
 
 use protobuf::Message;
 
-use crate::{ir::OnnxGraph, processor::ProcessError, protos::ModelProto};
+use crate::{
+    ir::OnnxGraph, processor::ProcessError, protos::ModelProto, value_names::make_names_distinct,
+};
 
 use super::phases::{
     finalization, initialization, node_conversion, post_processing, type_inference,
@@ -250,7 +252,7 @@ impl OnnxGraphBuilder {
         // Get the base directory for external data resolution
         let base_path = source_path.and_then(|p| p.parent());
 
-        let model: ModelProto =
+        let mut model: ModelProto =
             Message::parse_from_tokio_bytes(&buffer).map_err(|e| Error::InvalidFormat {
                 path: path_str.clone(),
                 error: e.to_string(),
@@ -264,6 +266,10 @@ impl OnnxGraphBuilder {
             });
         }
 
+        if let Some(graph) = model.graph.as_mut() {
+            make_names_distinct(graph);
+        }
+
         let graph = build_graph_with_options(&model, base_path, self.simplify)?;
 
         if let Some(path) = path_str {
diff --git a/crates/onnx-ir/src/value_names.rs b/crates/onnx-ir/src/value_names.rs
new file mode 100644
index 0000000..042c0f0
--- /dev/null
+++ b/crates/onnx-ir/src/value_names.rs
@@ -0,0 +1,107 @@
+//! Names for the values of a model.
+//!
+//! ONNX names are arbitrary strings, while the names in the IR become identifiers of the
+//! generated code. Every distinct ONNX name is therefore replaced, before anything else looks at
+//! it, by a name of its own which [`sanitize_name`] leaves alone.
+
+use std::collections::{HashMap, HashSet};
+
+use crate::proto_conversion::sanitize_name;
+use crate::protos::GraphProto;
+
+/// Words that cannot be used as identifiers (the strict and reserved keywords of Rust that
+/// survive the conversion to snake case).
+const KEYWORDS: &[&str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl",
+    "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof",
+    "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
+];
+
+/// Give every value of the graph and of its subgraphs a distinct name that is a legal identifier.
+///
+/// Names that are already fit to be used stay as they are.
+pub(crate) fn make_names_distinct(graph: &mut GraphProto) {
+    let mut names = Vec::new();
+    visit_names(graph, &mut |name| {
+        if !name.is_empty() {
+            names.push(name.clone());
+        }
+    });
+
+    let mut taken = HashSet::new();
+    let mut renamed = HashMap::new();
+    for name in &names {
+        if identifier(name) == *name {
+            taken.insert(name.clone());
+            renamed.insert(name.clone(), name.clone());
+        }
+    }
+    for name in names {
+        if renamed.contains_key(&name) {
+            continue;
+        }
+        let base = identifier(&name);
+        let mut unique = base.clone();
+        let mut count = 2;
+        while !taken.insert(unique.clone()) {
+            unique = format!("{base}_{count}");
+            count += 1;
+        }
+        renamed.insert(name, unique);
+    }
+
+    visit_names(graph, &mut |name| {
+        if let Some(new) = renamed.get(name.as_str()) {
+            name.clone_from(new);
+        }
+    });
+}
+
+/// A legal identifier resembling the given name, which cannot be taken for a generated name.
+fn identifier(name: &str) -> String {
+    let name = sanitize_name(name);
+    if name.chars().all(|c| c == '_') {
+        "value".to_string()
+    } else if KEYWORDS.contains(&name.as_str()) || looks_generated(&name) {
+        format!("{name}_value")
+    } else {
+        name
+    }
+}
+
+/// Whether the name has the form of the names given to node outputs, like `add1_out1`.
+fn looks_generated(name: &str) -> bool {
+    let ends_in_number = |s: &str| s.ends_with(|c: char| c.is_ascii_digit());
+    name.rsplit_once("_out").is_some_and(|(node, index)| {
+        ends_in_number(node) && !index.is_empty() && index.chars().all(|c| c.is_ascii_digit())
+    })
+}
+
+/// Call the function on every name of a value in the graph and its subgraphs.
+fn visit_names(graph: &mut GraphProto, f: &mut impl FnMut(&mut String)) {
+    for value in graph
+        .input
+        .iter_mut()
+        .chain(graph.output.iter_mut())
+        .chain(graph.value_info.iter_mut())
+    {
+        f(&mut value.name);
+    }
+    for tensor in graph.initializer.iter_mut() {
+        f(&mut tensor.name);
+    }
+    for node in graph.node.iter_mut() {
+        node.input.iter_mut().for_each(&mut *f);
+        node.output.iter_mut().for_each(&mut *f);
+        for attribute in node.attribute.iter_mut() {
+            if let Some(subgraph) = attribute.g.as_mut() {
+                visit_names(subgraph, f);
+            }
+            for subgraph in attribute.graphs.iter_mut() {
+                visit_names(subgraph, f);
+            }
+        }
+    }
+}
-- 
2.43.0


From da96bc9f8bbd585dd884db46cddcd43283d37e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:34 +0000
Subject: [PATCH 23/44] fix: Reduce refuses run-time axes and
 noop_with_empty_axes and knows the extents when reducing all

---
 crates/onnx-ir/src/node/reduce.rs | 34 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/crates/onnx-ir/src/node/reduce.rs b/crates/onnx-ir/src/node/reduce.rs
index b66e8a0..77718d2 100644
--- a/crates/onnx-ir/src/node/reduce.rs
+++ b/crates/onnx-ir/src/node/reduce.rs
@@ -196,17 +196,10 @@ impl NodeProcessor for ReduceProcessor {
         };
 
         // Get config values before using them
-        let config = self
-            .extract_config(node, opset)
-            .expect("Config extraction failed");
+        let config = self.extract_config(node, opset)?;
         let dims = config.dims.clone();
         let keepdims = if config.keepdims { 1 } else { 0 };
 
-        let has_runtime_axes = node
-            .inputs
-            .get(1)
-            .is_some_and(|axes| !axes.is_optional() && axes.value().is_none());
-
         // Determine if the output should be a scalar
         let should_be_scalar = keepdims == 0 && (dims.is_empty() || dims.len() == tensor_rank);
 
@@ -229,12 +222,10 @@ impl NodeProcessor for ReduceProcessor {
                     return None;
                 }
 
-                // Axes computed at run time leave every extent open
-                if config.dims.is_empty() && has_runtime_axes {
-                    return None;
-                }
-
-                if keepdims == 1 {
+                if keepdims == 1 && dims.is_empty() {
+                    // Without axes, all dimensions are reduced
+                    Some(vec![Some(1); tensor_rank])
+                } else if keepdims == 1 {
                     for dim in &dims {
                         shape[*dim] = Some(1);
                     }
@@ -272,20 +263,33 @@ impl NodeProcessor for ReduceProcessor {
         // Extract axes and keepdims attributes
         let mut axes = Vec::new();
         let mut keepdims = 1;
+        let mut noop_with_empty_axes = 0;
 
         for (key, value) in node.attrs.iter() {
             match key.as_str() {
                 "axes" => axes = value.clone().into_i64s(),
                 "keepdims" => keepdims = value.clone().into_i64(),
+                "noop_with_empty_axes" => noop_with_empty_axes = value.clone().into_i64(),
                 _ => {}
             }
         }
 
         // Process axes from additional input (if available)
-        if let Some(value) = node.inputs.get(1).and_then(|argument| argument.value()) {
+        if let Some(argument) = node.inputs.get(1).filter(|axes| !axes.is_optional()) {
+            let Some(value) = argument.value() else {
+                return Err(ProcessError::Custom(
+                    "Reduce: axes computed at run time are not supported".to_string(),
+                ));
+            };
             axes = value.to_vec::<i64>().unwrap();
         }
 
+        if axes.is_empty() && noop_with_empty_axes != 0 {
+            return Err(ProcessError::Custom(
+                "Reduce: noop_with_empty_axes is not supported".to_string(),
+            ));
+        }
+
         let mut dims: Vec<usize> = axes
             .into_iter()
             .map(|mut dim| {
-- 
2.43.0


From 80d69f551ee131b122029634b7000a1564b10f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:34 +0000
Subject: [PATCH 24/44] fix: Expand to a shape of lower rank than its operand

---
 crates/burn-onnx/src/burn/node/expand.rs | 27 ++++++++++++++++++++++++
 crates/onnx-ir/src/node/expand.rs        |  9 ++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/expand.rs b/crates/burn-onnx/src/burn/node/expand.rs
index 4c9ed2a..3a41bcf 100644
--- a/crates/burn-onnx/src/burn/node/expand.rs
+++ b/crates/burn-onnx/src/burn/node/expand.rs
@@ -1,5 +1,13 @@
 use super::prelude::*;
 
+/// The number of dimensions given by the shape operand, if known.
+fn shape_len(ty: &ArgType) -> Option<usize> {
+    match ty {
+        ArgType::Shape(len) => Some(*len),
+        ty => ty.static_shape()?.first().copied().flatten(),
+    }
+}
+
 impl NodeCodegen for onnx_ir::expand::ExpandNode {
     fn inputs(&self) -> &[Argument] {
         &self.inputs
@@ -22,6 +30,25 @@ impl NodeCodegen for onnx_ir::expand::ExpandNode {
             onnx_ir::expand::ExpandConfig::Runtime(r) => {
                 let shape_arg = &self.inputs[r.input_index];
                 match &shape_arg.ty {
+                    ty if shape_len(ty).is_some_and(|len| len < output_rank) => {
+                        // The missing leading dimensions are those of the input
+                        let len = shape_len(ty).unwrap();
+                        let missing = output_rank - len;
+                        let name = arg_to_ident(shape_arg);
+                        let values = match ty {
+                            ArgType::Shape(_) => quote! { #name },
+                            _ => quote! {
+                                #name.to_data().convert::<i64>().as_slice::<i64>().unwrap()
+                            },
+                        };
+                        quote! {
+                            {
+                                let mut padded = [1i64; #output_rank];
+                                padded[#missing..].copy_from_slice(&#values[..]);
+                                padded
+                            }
+                        }
+                    }
                     ArgType::Tensor(_) => {
                         let name = arg_to_ident(shape_arg);
                         quote! {
diff --git a/crates/onnx-ir/src/node/expand.rs b/crates/onnx-ir/src/node/expand.rs
index effd6fd..1844f0a 100644
--- a/crates/onnx-ir/src/node/expand.rs
+++ b/crates/onnx-ir/src/node/expand.rs
@@ -152,7 +152,7 @@ impl NodeProcessor for ExpandProcessor {
 
                 node.outputs[0].ty = ArgType::Tensor(TensorType {
                     dtype: input_elem_type,
-                    rank: output_rank,
+                    rank: output_rank.max(node.inputs[0].ty.rank()),
                     static_shape: None,
                 });
             }
@@ -178,7 +178,12 @@ impl NodeProcessor for ExpandProcessor {
         // Extract config
         let config = match node.inputs[1].value() {
             Some(tensor_data) => match tensor_data.to_i64_vec() {
-                Ok(shape) => ExpandConfig::Static(shape),
+                Ok(mut shape) => {
+                    // Broadcasting aligns the last dimensions
+                    let missing = node.inputs[0].ty.rank().saturating_sub(shape.len());
+                    shape.splice(0..0, std::iter::repeat_n(1, missing));
+                    ExpandConfig::Static(shape)
+                }
                 Err(_) => {
                     return Err(ProcessError::Custom(
                         "Expand: shape data type must be int32 or int64".to_string(),
-- 
2.43.0


From 726117e04d073bfce10cfcf2b8462fdf57542c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:20 +0000
Subject: [PATCH 25/44] fix: values named like local variables of the generated
 code

---
 crates/onnx-ir/src/value_names.rs | 69 ++++++++++++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/value_names.rs b/crates/onnx-ir/src/value_names.rs
index 042c0f0..9b06de5 100644
--- a/crates/onnx-ir/src/value_names.rs
+++ b/crates/onnx-ir/src/value_names.rs
@@ -19,6 +19,69 @@ const KEYWORDS: &[&str] = &[
     "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
 ];
 
+/// Names of local variables in the generated code, which would hide a value of the same name.
+const LOCALS: &[&str] = &[
+    "_scalar_tensor",
+    "actual_idx",
+    "axis",
+    "b",
+    "batch_count",
+    "batch_data_stride",
+    "bias",
+    "channels",
+    "chunk",
+    "data_dims",
+    "data_strides",
+    "device",
+    "dim",
+    "dim_size",
+    "dtype",
+    "final_state",
+    "flat_indices",
+    "gathered",
+    "head_size",
+    "idx_strides",
+    "indices",
+    "indices_data",
+    "indices_dims",
+    "indices_values",
+    "input_dims",
+    "input_dtype",
+    "input_shape",
+    "kv_sequence_length",
+    "leading_dim",
+    "lookups_per_batch",
+    "mean",
+    "num_updates",
+    "onnx_shape",
+    "output_flat",
+    "output_size",
+    "padded",
+    "r",
+    "scale",
+    "scales_array",
+    "scales_data",
+    "seq_len",
+    "shape",
+    "shape_array",
+    "shape_data",
+    "sizes",
+    "slice_size",
+    "target_height",
+    "target_width",
+    "total_data",
+    "total_data_size",
+    "total_size",
+    "total_slices",
+    "total_updates",
+    "updates_dims",
+    "v_head_size",
+    "var",
+];
+
+/// Prefixes of numbered local variables in the generated code.
+const LOCAL_PREFIXES: &[&str] = &["scan_collector_", "scan_output_"];
+
 /// Give every value of the graph and of its subgraphs a distinct name that is a legal identifier.
 ///
 /// Names that are already fit to be used stay as they are.
@@ -64,7 +127,11 @@ fn identifier(name: &str) -> String {
     let name = sanitize_name(name);
     if name.chars().all(|c| c == '_') {
         "value".to_string()
-    } else if KEYWORDS.contains(&name.as_str()) || looks_generated(&name) {
+    } else if KEYWORDS.contains(&name.as_str())
+        || LOCALS.contains(&name.as_str())
+        || LOCAL_PREFIXES.iter().any(|prefix| name.starts_with(prefix))
+        || looks_generated(&name)
+    {
         format!("{name}_value")
     } else {
         name
-- 
2.43.0


From 94d846139e42caa0cfab500bb67a5d067960847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:19 +0000
Subject: [PATCH 26/44] fix: captured values are listed in a fixed order

---
 crates/onnx-ir/src/proto_conversion.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index 0da6f55..d59a4c2 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -709,8 +709,8 @@ fn convert_shape(shape: Vec<i64>) -> Vec<usize> {
 /// This also handles nested subgraphs recursively.
 pub fn extract_outer_scope_references(
     graph_proto: &crate::protos::GraphProto,
-) -> std::collections::HashSet<String> {
-    use std::collections::HashSet;
+) -> std::collections::BTreeSet<String> {
+    use std::collections::{BTreeSet, HashSet};
 
     // Collect initializer names for lookup
     let initializer_names: HashSet<String> = graph_proto
@@ -728,7 +728,7 @@ pub fn extract_outer_scope_references(
     };
 
     // Collect all names defined within this subgraph
-    let mut defined_names: HashSet<String> = HashSet::new();
+    let mut defined_names: BTreeSet<String> = BTreeSet::new();
 
     // Inputs with initializers are locally defined (not outer-scope)
     for input in &graph_proto.input {
@@ -754,7 +754,7 @@ pub fn extract_outer_scope_references(
     }
 
     // Collect all referenced names
-    let mut referenced_names: HashSet<String> = HashSet::new();
+    let mut referenced_names: BTreeSet<String> = BTreeSet::new();
 
     // Subgraph inputs without initializers are outer-scope references
     for input in &graph_proto.input {
@@ -849,10 +849,10 @@ pub fn extract_outer_scope_references(
 /// as implicit inputs to ensure proper topological ordering.
 pub fn extract_node_outer_scope_references(
     node_proto: &NodeProto,
-) -> std::collections::HashSet<String> {
-    use std::collections::HashSet;
+) -> std::collections::BTreeSet<String> {
+    use std::collections::BTreeSet;
 
-    let mut all_refs: HashSet<String> = HashSet::new();
+    let mut all_refs: BTreeSet<String> = BTreeSet::new();
 
     for attr in &node_proto.attribute {
         if let Ok(attr_type) = attr.type_.enum_value() {
-- 
2.43.0


From 366d5224e8ab58b6fe3768567d1815e3defd98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:43 +0000
Subject: [PATCH 27/44] fix: file names with dots keep what follows the last
 one

---
 crates/burn-onnx/src/burn/graph.rs |  4 ++--
 crates/burn-onnx/src/model_gen.rs  | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index af102f4..352a848 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -43,14 +43,14 @@ impl BurnGraph {
     ///
     /// # Arguments
     ///
-    /// * `out_file` - The path to the burnpack file (without extension).
+    /// * `out_file` - The path to the burnpack file.
     /// * `embed_states` - If true, embed the burnpack file in the binary using `include_bytes!`.
     pub fn with_burnpack(mut self, out_file: PathBuf, embed_states: bool) -> Self {
         // Collect all tensor snapshots from nodes
         let snapshots = self.collect_all_snapshots();
 
         // Write burnpack file
-        let burnpack_file = out_file.with_extension("bpk");
+        let burnpack_file = out_file;
         BurnpackWriter::new(snapshots)
             .with_metadata("producer", "burn-onnx")
             .write_to_file(&burnpack_file)
diff --git a/crates/burn-onnx/src/model_gen.rs b/crates/burn-onnx/src/model_gen.rs
index ef3c6c1..0226305 100644
--- a/crates/burn-onnx/src/model_gen.rs
+++ b/crates/burn-onnx/src/model_gen.rs
@@ -331,7 +331,7 @@ impl ModelGen {
         let code = self.generate_burn_graph(graph, &out_file, top_comment);
 
         let code_str = format_tokens(code);
-        let source_code_file = out_file.with_extension("rs");
+        let source_code_file = append_extension(&out_file, "rs");
         log::info!("Writing source code to {}", source_code_file.display());
         fs::write(source_code_file, code_str).unwrap();
 
@@ -341,7 +341,7 @@ impl ModelGen {
     /// Write debug file in development mode.
     fn write_debug_file<T: std::fmt::Debug>(&self, out_file: &Path, extension: &str, content: &T) {
         let debug_content = format!("{content:#?}");
-        let debug_file = out_file.with_extension(extension);
+        let debug_file = append_extension(out_file, extension);
         log::debug!("Writing debug file: {debug_file:?}");
         fs::write(debug_file, debug_content).unwrap();
     }
@@ -353,7 +353,7 @@ impl ModelGen {
         out_file: &Path,
         top_comment: Option<String>,
     ) -> proc_macro2::TokenStream {
-        let bpk_file = out_file.with_extension("bpk");
+        let bpk_file = append_extension(out_file, "bpk");
         graph
             .into_burn()
             .with_burnpack(bpk_file, self.embed_states)
@@ -363,6 +363,15 @@ impl ModelGen {
     }
 }
 
+/// The path with the extension added after its file name, which may itself contain dots
+/// (`with_extension` would take what follows the last of them for an extension and replace it).
+fn append_extension(path: &Path, extension: &str) -> PathBuf {
+    let mut path = path.as_os_str().to_owned();
+    path.push(".");
+    path.push(extension);
+    path.into()
+}
+
 #[derive(Debug)]
 struct ParsedOnnxGraph(OnnxGraph);
 
-- 
2.43.0


From 382228a2c1331452ca9f3d450ee3fcc0b66b524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 28/44] fix: the graph dump promised for development mode

---
 crates/burn-onnx/src/burn/graph.rs | 9 ++++++---
 crates/burn-onnx/src/model_gen.rs  | 7 ++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index 352a848..4337ef2 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -4,7 +4,10 @@ use burn_store::{BurnpackWriter, TensorSnapshot};
 use onnx_ir::{Node, ir::ArgType};
 use proc_macro2::TokenStream;
 use quote::quote;
-use std::{collections::HashMap, path::PathBuf};
+use std::{
+    collections::{BTreeMap, HashMap},
+    path::PathBuf,
+};
 
 /// Burn graph intermediate representation of modules and tensor operations.
 #[derive(Default, Debug)]
@@ -21,8 +24,8 @@ pub struct BurnGraph {
     /// boundary. Maps arg name -> DType. Used to insert conversion code:
     /// - Outputs: `.into_scalar().elem::<T>()` before the return
     /// - Inputs: `Tensor::from_data([name as T], &*self.device)` after the params
-    boundary_output_conversions: HashMap<String, onnx_ir::ir::DType>,
-    boundary_input_conversions: HashMap<String, onnx_ir::ir::DType>,
+    boundary_output_conversions: BTreeMap<String, onnx_ir::ir::DType>,
+    boundary_input_conversions: BTreeMap<String, onnx_ir::ir::DType>,
 }
 
 impl BurnGraph {
diff --git a/crates/burn-onnx/src/model_gen.rs b/crates/burn-onnx/src/model_gen.rs
index 0226305..e7e862a 100644
--- a/crates/burn-onnx/src/model_gen.rs
+++ b/crates/burn-onnx/src/model_gen.rs
@@ -354,8 +354,13 @@ impl ModelGen {
         top_comment: Option<String>,
     ) -> proc_macro2::TokenStream {
         let bpk_file = append_extension(out_file, "bpk");
+        let graph = graph.into_burn();
+
+        if self.development {
+            self.write_debug_file(out_file, "graph.txt", &graph);
+        }
+
         graph
-            .into_burn()
             .with_burnpack(bpk_file, self.embed_states)
             .with_blank_space(true)
             .with_top_comment(top_comment)
-- 
2.43.0


From 8cc71b7db52a54779a2488e8dbafa49ca25f0b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 29/44] fix: refuse models that would be generated into the
 same files

---
 crates/burn-onnx/src/model_gen.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/burn-onnx/src/model_gen.rs b/crates/burn-onnx/src/model_gen.rs
index e7e862a..aa9235a 100644
--- a/crates/burn-onnx/src/model_gen.rs
+++ b/crates/burn-onnx/src/model_gen.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashMap,
     env,
     fs::{self, create_dir_all},
     path::{Path, PathBuf},
@@ -282,6 +283,8 @@ impl ModelGen {
 
         create_dir_all(&out_dir).unwrap();
 
+        self.check_distinct_names();
+
         for input in self.inputs.iter() {
             let file_name = input.file_stem().unwrap();
             let out_file: PathBuf = out_dir.join(file_name);
@@ -297,6 +300,21 @@ impl ModelGen {
     }
 
     /// Get the output directory path based on whether this is a build script or CLI invocation.
+    /// The files of a model are named after its file: two models of the same name would overwrite
+    /// each other's.
+    fn check_distinct_names(&self) {
+        let mut names = HashMap::new();
+        for input in self.inputs.iter() {
+            if let Some(other) = names.insert(input.file_stem(), input)
+                && other != input
+            {
+                panic!(
+                    "{other:?} and {input:?} have the same name: they would be generated into the same files"
+                );
+            }
+        }
+    }
+
     fn get_output_directory(&self, is_build_script: bool) -> PathBuf {
         if is_build_script {
             let cargo_out_dir = env::var("OUT_DIR").expect("OUT_DIR env is not set");
-- 
2.43.0


From 45e93b602a3258bcb1ed56dcf87b2e5273ec7bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 30/44] fix: embedded weights with a relative output directory

---
 crates/burn-onnx/src/burn/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index 4337ef2..7ad42aa 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -61,6 +61,9 @@ impl BurnGraph {
 
         // Register the loading code
         if embed_states {
+            // `include_bytes!` takes a path relative to the source file it is in
+            let burnpack_file = std::path::absolute(burnpack_file)
+                .expect("Failed to resolve the path of the burnpack file");
             self.register_burnpack_embed(burnpack_file);
         } else {
             self.register_burnpack_file(burnpack_file);
-- 
2.43.0


From 6c55577745bd1de0091251747c5c6a93b49f74e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:06 +0000
Subject: [PATCH 31/44] fix: weights of layers in Scan bodies

---
 crates/burn-onnx/src/burn/graph.rs | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index 7ad42aa..7e4f787 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -101,7 +101,7 @@ impl BurnGraph {
                     snapshots.extend(node_snapshots);
                 }
 
-                // Recursively collect from nested If/Loop nodes
+                // Recursively collect from nested If/Loop/Scan nodes
                 if let Node::If(nested_if_node) = node {
                     collect_subgraph_snapshots_recursive(
                         &nested_if_node.config.then_branch,
@@ -119,6 +119,12 @@ impl BurnGraph {
                         field_name_counts,
                         snapshots,
                     );
+                } else if let Node::Scan(nested_scan_node) = node {
+                    collect_subgraph_snapshots_recursive(
+                        &nested_scan_node.config.body,
+                        field_name_counts,
+                        snapshots,
+                    );
                 }
             }
         }
@@ -131,7 +137,7 @@ impl BurnGraph {
                 snapshots.extend(node_snapshots);
             }
 
-            // Collect from subgraphs in If/Loop nodes
+            // Collect from subgraphs in If/Loop/Scan nodes
             if let Node::If(if_node) = node {
                 collect_subgraph_snapshots_recursive(
                     &if_node.config.then_branch,
@@ -149,6 +155,12 @@ impl BurnGraph {
                     &mut field_name_counts,
                     &mut snapshots,
                 );
+            } else if let Node::Scan(scan_node) = node {
+                collect_subgraph_snapshots_recursive(
+                    &scan_node.config.body,
+                    &mut field_name_counts,
+                    &mut snapshots,
+                );
             }
         }
 
@@ -402,7 +414,7 @@ impl BurnGraph {
                     all_fields.push((field.name.clone(), field.ty.clone(), Some(field.init)));
                 }
 
-                // Recursively collect from nested If/Loop nodes
+                // Recursively collect from nested If/Loop/Scan nodes
                 if let Node::If(nested_if_node) = burn_node {
                     collect_subgraph_fields_recursive(
                         &nested_if_node.config.then_branch,
@@ -420,6 +432,12 @@ impl BurnGraph {
                         field_name_counts,
                         all_fields,
                     );
+                } else if let Node::Scan(nested_scan_node) = burn_node {
+                    collect_subgraph_fields_recursive(
+                        &nested_scan_node.config.body,
+                        field_name_counts,
+                        all_fields,
+                    );
                 }
             }
         }
@@ -430,7 +448,7 @@ impl BurnGraph {
                 all_fields.push((field.name, field.ty, Some(field.init)));
             }
 
-            // Recursively collect fields from If/Loop node subgraphs
+            // Recursively collect fields from If/Loop/Scan node subgraphs
             // Note: Subgraph fields are NOT deduplicated - each branch has unique fields
             if let Node::If(if_node) = node {
                 collect_subgraph_fields_recursive(
@@ -449,6 +467,12 @@ impl BurnGraph {
                     &mut field_name_counts,
                     &mut all_fields,
                 );
+            } else if let Node::Scan(scan_node) = node {
+                collect_subgraph_fields_recursive(
+                    &scan_node.config.body,
+                    &mut field_name_counts,
+                    &mut all_fields,
+                );
             }
         }
 
-- 
2.43.0


From 0dcb3d6479b6fd1a2ecd2e82e7a4c4725bc970a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:11 +0000
Subject: [PATCH 32/44] fix: the graph dumps list constants in a fixed order

---
 crates/onnx-ir/src/tensor_store.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/onnx-ir/src/tensor_store.rs b/crates/onnx-ir/src/tensor_store.rs
index 8492807..8f453a8 100644
--- a/crates/onnx-ir/src/tensor_store.rs
+++ b/crates/onnx-ir/src/tensor_store.rs
@@ -7,7 +7,7 @@
 //! Supports both embedded data (in the ONNX protobuf) and external data
 //! (stored in separate files for models >2GB).
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fs::File;
 use std::io::{Read, Seek, SeekFrom};
 use std::path::PathBuf;
@@ -231,7 +231,7 @@ impl From<TensorData> for TensorDataRef {
 #[derive(Debug, Clone)]
 pub struct TensorStore {
     /// Maps tensor IDs to their data references
-    data: HashMap<DataId, TensorDataRef>,
+    data: BTreeMap<DataId, TensorDataRef>,
     /// Next available tensor ID
     next_id: DataId,
 }
@@ -240,7 +240,7 @@ impl TensorStore {
     /// Create a new empty tensor store
     pub fn new() -> Self {
         Self {
-            data: HashMap::new(),
+            data: BTreeMap::new(),
             next_id: 0,
         }
     }
@@ -280,7 +280,7 @@ impl Default for TensorStore {
 ///
 /// After graph construction, this allows Arguments to look up their values
 /// without needing mutable access or RefCell.
-#[derive(Debug, Clone)]
+#[derive(Clone)]
 pub struct ValueStore {
     /// Immutable tensor data storage
     tensor_store: Arc<TensorStore>,
@@ -289,6 +289,17 @@ pub struct ValueStore {
     constant_map: Arc<HashMap<String, DataId>>,
 }
 
+impl std::fmt::Debug for ValueStore {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        // The constants are listed by name: the order of a hash map is another one each time
+        let constant_map: BTreeMap<_, _> = self.constant_map.iter().collect();
+        f.debug_struct("ValueStore")
+            .field("tensor_store", &self.tensor_store)
+            .field("constant_map", &constant_map)
+            .finish()
+    }
+}
+
 impl ValueStore {
     /// Create a new ValueStore from tensor store and constant map
     pub fn new(tensor_store: Arc<TensorStore>, constant_map: Arc<HashMap<String, DataId>>) -> Self {
-- 
2.43.0


From 194e2468887bef494600eeaef90fba9a51f7e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 33/44] fix: scalar outputs that other nodes use, or that are
 listed twice

---
 crates/burn-onnx/src/burn/graph.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index 7e4f787..10a3ab2 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -5,7 +5,7 @@ use onnx_ir::{Node, ir::ArgType};
 use proc_macro2::TokenStream;
 use quote::quote;
 use std::{
-    collections::{BTreeMap, HashMap},
+    collections::{BTreeMap, HashMap, HashSet},
     path::PathBuf,
 };
 
@@ -282,10 +282,14 @@ impl BurnGraph {
                     .for_each(|arg| self.scope.tensor_register_future_use(arg, node_position));
             });
 
-        // Register graph tensor output with the last node position
+        // Register graph tensor output with the last node position, including those
+        // which are read from the device right before the return
         self.graph_output_args
             .iter()
-            .filter(|arg| matches!(arg.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_)))
+            .filter(|arg| {
+                matches!(arg.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_))
+                    || self.boundary_output_conversions.contains_key(&arg.name)
+            })
             .for_each(|arg| {
                 self.scope.tensor_register_future_use(arg, self.nodes.len());
             });
@@ -585,7 +589,12 @@ impl BurnGraph {
         // Insert ScalarTensor -> ScalarNative conversions at graph boundary.
         // Internal nodes produce Tensor<B, 1> but the graph signature expects native types.
         let mut boundary_conversions = quote! {};
+        let mut converted = HashSet::new();
         for arg in &self.graph_output_args {
+            // A value that is several outputs is converted once
+            if !converted.insert(&arg.name) {
+                continue;
+            }
             if let Some(dtype) = self.boundary_output_conversions.get(&arg.name) {
                 let name = crate::burn::arg_ident(arg);
                 let convert = crate::burn::on_device_to_native(quote! { #name }, dtype);
-- 
2.43.0


From ce6f5987325d5a831d045723b80adc48edbe9a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 34/44] fix: scalar constants of every integer type

---
 crates/burn-onnx/src/burn/node/constant.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/constant.rs b/crates/burn-onnx/src/burn/node/constant.rs
index 2f31390..ce8e019 100644
--- a/crates/burn-onnx/src/burn/node/constant.rs
+++ b/crates/burn-onnx/src/burn/node/constant.rs
@@ -55,7 +55,7 @@ impl NodeCodegen for onnx_ir::node::constant::ConstantNode {
                     },
                 )
             } else if dtype.is_int() || dtype.is_uint() {
-                let val = tensor_data.to_i64_vec().unwrap()[0];
+                let val = tensor_data.iter::<i64>().next().unwrap();
                 (
                     quote! { burn::module::Param<Tensor<B, 1, Int>> },
                     quote! {
@@ -215,7 +215,7 @@ impl NodeCodegen for onnx_ir::node::constant::ConstantNode {
                     }
                     d if d.is_int() || d.is_uint() => {
                         // I8, I16, U8, U16, U32, U64
-                        let val = tensor_data.to_i64_vec().unwrap()[0];
+                        let val = tensor_data.iter::<i64>().next().unwrap();
                         let ty = super::super::argument_helpers::scalar_type_tokens(elem_type);
                         quote! { #val as #ty }
                     }
-- 
2.43.0


From 70f368495446d69aed6651ee1907328e4a9675d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:52 +0000
Subject: [PATCH 35/44] fix: accept the spelled-out default domain and refuse
 negative opset versions

---
 crates/onnx-ir/src/pipeline.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index 2a9974f..d797092 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -373,14 +373,22 @@ pub(crate) fn build_graph_builder_from_proto_with_outer_scope(
     ))
 }
 
+/// Whether a domain is the default ONNX domain, which may be spelled out
+fn is_default_domain(domain: &str) -> bool {
+    matches!(domain, "" | "ai.onnx")
+}
+
 /// Extract opset version from model (default ONNX domain)
 fn extract_opset_version(model: &ModelProto) -> Result<usize, Error> {
-    model
+    let version = model
         .opset_import
         .iter()
-        .find(|opset| opset.domain.is_empty())
-        .map(|opset| opset.version as usize)
-        .ok_or(Error::MissingOpsetVersion)
+        .find(|opset| is_default_domain(&opset.domain))
+        .map(|opset| opset.version)
+        .ok_or(Error::MissingOpsetVersion)?;
+    usize::try_from(version).map_err(|_| Error::InvalidGraphStructure {
+        reason: format!("Opset version {version} is negative"),
+    })
 }
 
 /// Trait for checking if a list of nodes is topologically sorted
-- 
2.43.0


From 44f7d38936615efde3e1c0be19e9432d054a1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:10 +0000
Subject: [PATCH 36/44] fix: refuse models that use undefined values or define
 a value twice

---
 crates/onnx-ir/src/pipeline.rs | 51 +++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index d797092..2007a64 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -23,13 +23,17 @@
 //! let graph = OnnxGraphBuilder::new().parse_reader(file)?;
 //! ```
 
+use std::collections::HashSet;
 use std::io::Read;
 use std::{fmt, fs::File, path::Path};
 
 use protobuf::Message;
 
 use crate::{
-    ir::OnnxGraph, processor::ProcessError, protos::ModelProto, value_names::make_names_distinct,
+    ir::OnnxGraph,
+    processor::ProcessError,
+    protos::{GraphProto, ModelProto},
+    value_names::make_names_distinct,
 };
 
 use super::phases::{
@@ -266,6 +270,9 @@ impl OnnxGraphBuilder {
             });
         }
 
+        check_values(&model.graph, &HashSet::new())
+            .map_err(|reason| Error::InvalidGraphStructure { reason })?;
+
         if let Some(graph) = model.graph.as_mut() {
             make_names_distinct(graph);
         }
@@ -391,6 +398,48 @@ fn extract_opset_version(model: &ModelProto) -> Result<usize, Error> {
     })
 }
 
+/// Check that every value a graph uses is defined before its use, and only once
+///
+/// Subgraphs may also use the values of the graphs around them, which are in `outer`.
+fn check_values(graph: &GraphProto, outer: &HashSet<&str>) -> Result<(), String> {
+    let mut known = outer.clone();
+    let mut own: HashSet<&str> = HashSet::new();
+    own.extend(graph.input.iter().map(|x| x.name.as_str()));
+    own.extend(graph.initializer.iter().map(|x| x.name.as_str()));
+    own.extend((graph.sparse_initializer.iter()).map(|x| x.values.name.as_str()));
+    known.extend(&own);
+
+    for node in &graph.node {
+        if let Some(name) =
+            (node.input.iter()).find(|name| !name.is_empty() && !known.contains(name.as_str()))
+        {
+            return Err(format!(
+                "{} node '{}' uses '{name}', which nothing before it defines",
+                node.op_type, node.name
+            ));
+        }
+        for attribute in &node.attribute {
+            for subgraph in attribute.g.iter().chain(&attribute.graphs) {
+                check_values(subgraph, &known)?;
+            }
+        }
+        for name in node.output.iter().filter(|name| !name.is_empty()) {
+            if !own.insert(name) {
+                return Err(format!(
+                    "{} node '{}' defines '{name}', which is already defined",
+                    node.op_type, node.name
+                ));
+            }
+            known.insert(name);
+        }
+    }
+
+    match (graph.output.iter()).find(|x| !known.contains(x.name.as_str())) {
+        Some(output) => Err(format!("Nothing defines the output '{}'", output.name)),
+        None => Ok(()),
+    }
+}
+
 /// Trait for checking if a list of nodes is topologically sorted
 pub(crate) trait TopologicalSortable {
     fn is_top_sorted(&self) -> bool;
-- 
2.43.0


From e06ce000e0fc759b5284ba51d4555dae0204d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:10 +0000
Subject: [PATCH 37/44] fix: refuse operators of other domains

---
 crates/onnx-ir/src/pipeline.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index 2007a64..fe5b2f2 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -270,7 +270,7 @@ impl OnnxGraphBuilder {
             });
         }
 
-        check_values(&model.graph, &HashSet::new())
+        check_graph(&model.graph, &HashSet::new())
             .map_err(|reason| Error::InvalidGraphStructure { reason })?;
 
         if let Some(graph) = model.graph.as_mut() {
@@ -398,10 +398,11 @@ fn extract_opset_version(model: &ModelProto) -> Result<usize, Error> {
     })
 }
 
-/// Check that every value a graph uses is defined before its use, and only once
+/// Check that every value a graph uses is defined before its use, and only once, and that
+/// its nodes are of the domain whose operators are supported
 ///
 /// Subgraphs may also use the values of the graphs around them, which are in `outer`.
-fn check_values(graph: &GraphProto, outer: &HashSet<&str>) -> Result<(), String> {
+fn check_graph(graph: &GraphProto, outer: &HashSet<&str>) -> Result<(), String> {
     let mut known = outer.clone();
     let mut own: HashSet<&str> = HashSet::new();
     own.extend(graph.input.iter().map(|x| x.name.as_str()));
@@ -410,6 +411,12 @@ fn check_values(graph: &GraphProto, outer: &HashSet<&str>) -> Result<(), String>
     known.extend(&own);
 
     for node in &graph.node {
+        if !is_default_domain(&node.domain) {
+            return Err(format!(
+                "{} node '{}' is of the unsupported domain '{}'",
+                node.op_type, node.name, node.domain
+            ));
+        }
         if let Some(name) =
             (node.input.iter()).find(|name| !name.is_empty() && !known.contains(name.as_str()))
         {
@@ -420,7 +427,7 @@ fn check_values(graph: &GraphProto, outer: &HashSet<&str>) -> Result<(), String>
         }
         for attribute in &node.attribute {
             for subgraph in attribute.g.iter().chain(&attribute.graphs) {
-                check_values(subgraph, &known)?;
+                check_graph(subgraph, &known)?;
             }
         }
         for name in node.output.iter().filter(|name| !name.is_empty()) {
-- 
2.43.0


From ebcfdb9fa100e1f45edaa36dc2f559e837b7e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:26 +0000
Subject: [PATCH 38/44] fix: tell left-out inputs from given ones when counting
 them

---
 crates/onnx-ir/src/processor.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index b2c52b4..5733603 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -385,7 +385,23 @@ pub fn validate_node_spec(
 fn validate_input_spec(node: &RawNode, opset: usize, spec: &InputSpec) -> Result<(), ProcessError> {
     // Use __onnx_input_count if available (for control flow nodes with outer-scope refs)
     // This ensures we only validate the original ONNX inputs, not extra scope refs
-    let actual = get_onnx_input_count(node);
+    let count = get_onnx_input_count(node);
+
+    // An input with an empty name is left out, also at the end
+    let given: Vec<bool> = (node.inputs.iter().take(count))
+        .map(|input| !input.is_optional())
+        .collect();
+    let actual = given.iter().rposition(|given| *given).map_or(0, |i| i + 1);
+
+    if let InputSpec::Exact(required) | InputSpec::AtLeast(required) | InputSpec::Range(required, _) =
+        spec
+        && let Some(missing) = given.iter().take(*required).position(|given| !given)
+    {
+        return Err(ProcessError::MissingInput(format!(
+            "{:?} node '{}' requires input {missing}",
+            node.node_type, node.name
+        )));
+    }
 
     match spec {
         InputSpec::Exact(expected) => {
-- 
2.43.0


From efaa31d907fdc355e8511cbf1ed7c2fd086502ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:14 +0000
Subject: [PATCH 39/44] fix: refuse models without a graph

---
 crates/onnx-ir/src/pipeline.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index fe5b2f2..02f224d 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -262,6 +262,12 @@ impl OnnxGraphBuilder {
                 error: e.to_string(),
             })?;
 
+        if model.graph.is_none() {
+            return Err(Error::InvalidGraphStructure {
+                reason: "The model has no graph".to_string(),
+            });
+        }
+
         // ONNX nodes must be topologically sorted per spec:
         // https://github.com/onnx/onnx/blob/main/docs/IR.md#graphs
         if !model.graph.node.is_top_sorted() {
-- 
2.43.0


From 3386144847e7069f2e6cc9d63b0e8c81cf573cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:48 +0000
Subject: [PATCH 40/44] fix: refuse axes out of range

---
 crates/onnx-ir/src/node/argmax.rs      |  6 ++----
 crates/onnx-ir/src/node/argmin.rs      |  6 ++----
 crates/onnx-ir/src/node/hardmax.rs     |  6 ++----
 crates/onnx-ir/src/node/log_softmax.rs |  6 ++----
 crates/onnx-ir/src/node/one_hot.rs     |  5 ++++-
 crates/onnx-ir/src/node/softmax.rs     |  6 ++----
 crates/onnx-ir/src/processor.rs        | 13 +++++++++++++
 7 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/crates/onnx-ir/src/node/argmax.rs b/crates/onnx-ir/src/node/argmax.rs
index 0820a6a..e9d8f42 100644
--- a/crates/onnx-ir/src/node/argmax.rs
+++ b/crates/onnx-ir/src/node/argmax.rs
@@ -146,11 +146,9 @@ impl NodeProcessor for ArgMaxProcessor {
             }
         }
 
-        if axis < 0 {
-            axis += tensor.rank as i64;
-        }
+        let axis = crate::processor::resolve_axis(axis, tensor.rank)?;
 
-        let config = ArgMaxConfig::new(axis as usize, keepdims);
+        let config = ArgMaxConfig::new(axis, keepdims);
         Ok(config)
     }
 
diff --git a/crates/onnx-ir/src/node/argmin.rs b/crates/onnx-ir/src/node/argmin.rs
index a233764..17a8f3d 100644
--- a/crates/onnx-ir/src/node/argmin.rs
+++ b/crates/onnx-ir/src/node/argmin.rs
@@ -146,11 +146,9 @@ impl NodeProcessor for ArgMinProcessor {
             }
         }
 
-        if axis < 0 {
-            axis += tensor.rank as i64;
-        }
+        let axis = crate::processor::resolve_axis(axis, tensor.rank)?;
 
-        let config = ArgMinConfig::new(axis as usize, keepdims);
+        let config = ArgMinConfig::new(axis, keepdims);
         Ok(config)
     }
 
diff --git a/crates/onnx-ir/src/node/hardmax.rs b/crates/onnx-ir/src/node/hardmax.rs
index 1c0e6a5..510a0b0 100644
--- a/crates/onnx-ir/src/node/hardmax.rs
+++ b/crates/onnx-ir/src/node/hardmax.rs
@@ -81,12 +81,10 @@ impl NodeProcessor for HardmaxProcessor {
             }
         }
 
-        if axis < 0 {
-            axis += tensor.rank as i64;
-        }
+        let axis = crate::processor::resolve_axis(axis, tensor.rank)?;
 
         Ok(HardmaxConfig {
-            axis: axis as usize,
+            axis,
         })
     }
 
diff --git a/crates/onnx-ir/src/node/log_softmax.rs b/crates/onnx-ir/src/node/log_softmax.rs
index 1e75460..6d8592c 100644
--- a/crates/onnx-ir/src/node/log_softmax.rs
+++ b/crates/onnx-ir/src/node/log_softmax.rs
@@ -109,14 +109,12 @@ impl NodeProcessor for LogSoftmaxProcessor {
         }
 
         // if axis is negative, it is counted from the end
-        if axis < 0 {
-            axis += tensor.rank as i64;
-        }
+        let axis = crate::processor::resolve_axis(axis, tensor.rank)?;
 
         // TODO: Validate converted axis is within bounds [0, rank) - Out of bounds axis should be rejected - burn/crates/onnx-ir/src/node/log_softmax.rs:103
 
         let config = LogSoftmaxConfig {
-            axis: axis as usize,
+            axis,
         };
         Ok(config)
     }
diff --git a/crates/onnx-ir/src/node/one_hot.rs b/crates/onnx-ir/src/node/one_hot.rs
index d5f1640..6f27bd3 100644
--- a/crates/onnx-ir/src/node/one_hot.rs
+++ b/crates/onnx-ir/src/node/one_hot.rs
@@ -113,7 +113,7 @@ impl NodeProcessor for OneHotProcessor {
     fn infer_types(
         &self,
         node: &mut RawNode,
-        _opset: usize,
+        opset: usize,
         _output_preferences: &OutputPreferences,
     ) -> Result<(), ProcessError> {
         // TODO: Validate that depth input is scalar or rank-1 tensor with single element as per spec
@@ -143,6 +143,7 @@ impl NodeProcessor for OneHotProcessor {
 
         // Update output shape
         one_hot_output_shape(node)?;
+        self.extract_config(node, opset)?;
 
         Ok(())
     }
@@ -186,6 +187,8 @@ impl NodeProcessor for OneHotProcessor {
             .get("axis")
             .map(|val| val.clone().into_i64())
             .unwrap_or(-1);
+        // The output has one axis more than the indices
+        crate::processor::resolve_axis(axis, node.inputs[0].ty.rank() + 1)?;
 
         let config = OneHotConfig {
             depth,
diff --git a/crates/onnx-ir/src/node/softmax.rs b/crates/onnx-ir/src/node/softmax.rs
index 07848d1..daf4c4b 100644
--- a/crates/onnx-ir/src/node/softmax.rs
+++ b/crates/onnx-ir/src/node/softmax.rs
@@ -94,12 +94,10 @@ impl NodeProcessor for SoftmaxProcessor {
         }
 
         // if axis is negative, it is counted from the end
-        if axis < 0 {
-            axis += tensor.rank as i64;
-        }
+        let axis = crate::processor::resolve_axis(axis, tensor.rank)?;
 
         let config = SoftmaxConfig {
-            axis: axis as usize,
+            axis,
         };
         Ok(config)
     }
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index 5733603..cb90dc1 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -509,6 +509,19 @@ pub(crate) fn get_onnx_input_count(node: &RawNode) -> usize {
     }
 }
 
+/// Resolve an axis, which counts from the end when negative, to an index into `rank` axes
+pub(crate) fn resolve_axis(axis: i64, rank: usize) -> Result<usize, ProcessError> {
+    let rank = rank as i64;
+    if (-rank..rank).contains(&axis) {
+        Ok((if axis < 0 { axis + rank } else { axis }) as usize)
+    } else {
+        Err(ProcessError::InvalidAttribute {
+            name: "axis".to_string(),
+            reason: format!("axis {axis} is out of range for rank {rank}"),
+        })
+    }
+}
+
 /// Build outer scope arguments map from additional inputs added during node conversion.
 ///
 /// During node conversion, outer-scope references used by subgraphs are extracted
-- 
2.43.0


From de36bc68147dc80f3e23a21f64b2cfa29ae889a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:12 +0000
Subject: [PATCH 41/44] fix: refuse Concat, MatMulInteger, Mean, Reshape, Scan,
 Slice, Sum and Tile without all of their inputs

---
 crates/onnx-ir/src/node/matmulinteger.rs | 13 ++++++++++++-
 crates/onnx-ir/src/node/reshape.rs       |  5 ++++-
 crates/onnx-ir/src/node/slice.rs         |  9 +++++++--
 crates/onnx-ir/src/node/tile.rs          |  5 ++++-
 crates/onnx-ir/src/processor.rs          | 18 ++++++++++++++++++
 5 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/crates/onnx-ir/src/node/matmulinteger.rs b/crates/onnx-ir/src/node/matmulinteger.rs
index 4e6cef9..bbda150 100644
--- a/crates/onnx-ir/src/node/matmulinteger.rs
+++ b/crates/onnx-ir/src/node/matmulinteger.rs
@@ -15,7 +15,9 @@
 use onnx_ir_derive::NodeBuilder;
 
 use crate::ir::{ArgType, Argument, DType, Node, RawNode, TensorType};
-use crate::processor::{NodeProcessor, OutputPreferences, ProcessError};
+use crate::processor::{
+    InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError,
+};
 
 use core::cmp::max;
 
@@ -32,6 +34,15 @@ pub(crate) struct MatMulIntegerProcessor;
 impl NodeProcessor for MatMulIntegerProcessor {
     type Config = ();
 
+    fn spec(&self) -> NodeSpec {
+        NodeSpec {
+            min_opset: 10,
+            max_opset: None,
+            inputs: InputSpec::Range(2, 4),
+            outputs: OutputSpec::Exact(1),
+        }
+    }
+
     fn infer_types(
         &self,
         node: &mut RawNode,
diff --git a/crates/onnx-ir/src/node/reshape.rs b/crates/onnx-ir/src/node/reshape.rs
index ccdc033..5355b04 100644
--- a/crates/onnx-ir/src/node/reshape.rs
+++ b/crates/onnx-ir/src/node/reshape.rs
@@ -267,7 +267,10 @@ impl NodeProcessor for ReshapeProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::OpsetDependent(vec![
+                (1, InputSpec::Exact(1)),
+                (5, InputSpec::Exact(2)), // Opset 5+: data, shape
+            ]),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/slice.rs b/crates/onnx-ir/src/node/slice.rs
index 709e544..5ebe62f 100644
--- a/crates/onnx-ir/src/node/slice.rs
+++ b/crates/onnx-ir/src/node/slice.rs
@@ -112,7 +112,10 @@ impl NodeProcessor for SliceProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::OpsetDependent(vec![
+                (1, InputSpec::Exact(1)),
+                (10, InputSpec::Range(3, 5)), // Opset 10+: data, starts, ends, axes, steps
+            ]),
             outputs: OutputSpec::Exact(1),
         }
     }
@@ -183,7 +186,9 @@ impl NodeProcessor for SliceProcessor {
                     _ => None,
                 };
                 crate::processor::same_as_input_keeping(node, |axis| {
-                    sliced.as_ref().is_some_and(|sliced| !sliced.contains(&axis))
+                    sliced
+                        .as_ref()
+                        .is_some_and(|sliced| !sliced.contains(&axis))
                 });
             }
             ArgType::Shape(shape_rank) => {
diff --git a/crates/onnx-ir/src/node/tile.rs b/crates/onnx-ir/src/node/tile.rs
index a72735e..de527ec 100644
--- a/crates/onnx-ir/src/node/tile.rs
+++ b/crates/onnx-ir/src/node/tile.rs
@@ -69,7 +69,10 @@ impl NodeProcessor for TileProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::OpsetDependent(vec![
+                (1, InputSpec::AtLeast(1)),
+                (6, InputSpec::Exact(2)), // Opset 6+: input, repeats
+            ]),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index cb90dc1..f48c764 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -403,6 +403,24 @@ fn validate_input_spec(node: &RawNode, opset: usize, spec: &InputSpec) -> Result
         )));
     }
 
+    // None of the inputs of a list may be left out
+    use crate::ir::NodeType;
+    if matches!(
+        node.node_type,
+        NodeType::Concat
+            | NodeType::Max
+            | NodeType::Mean
+            | NodeType::Min
+            | NodeType::Sum
+            | NodeType::Scan
+    ) && given.contains(&false)
+    {
+        return Err(ProcessError::MissingInput(format!(
+            "{:?} node '{}' requires all of its inputs",
+            node.node_type, node.name
+        )));
+    }
+
     match spec {
         InputSpec::Exact(expected) => {
             if actual != *expected {
-- 
2.43.0


From 2393c0426370012fd3bfc123c7e5e80dead2f62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:59 +0000
Subject: [PATCH 42/44] fix: take empty names of inputs at the end as inputs
 left out

---
 crates/onnx-ir/src/proto_conversion.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index d59a4c2..967a63e 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -656,7 +656,18 @@ pub fn convert_vec_attrs_proto(
 pub fn convert_node_proto(node: &NodeProto, graph_data: &GraphState) -> RawNode {
     let name = sanitize_name(&node.name);
 
-    let inputs = node.input.iter().map(|x| graph_data.init_in(x)).collect();
+    // Optional inputs at the end may be left out or given empty names, which means the same.
+    // Loop has a fixed layout in which the first two are optional.
+    let count = match node.op_type.as_str() {
+        "Loop" => node.input.len(),
+        _ => (node.input.iter())
+            .rposition(|x| !x.is_empty())
+            .map_or(0, |i| i + 1),
+    };
+    let inputs = node.input[..count]
+        .iter()
+        .map(|x| graph_data.init_in(x))
+        .collect();
 
     let outputs = node
         .output
-- 
2.43.0


From 23e1795b99d6221d6fdaca652aca67cfb3f4052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:55 +0000
Subject: [PATCH 43/44] fix: give infinities, NaN and far slice bounds in
 models as Rust can read them

---
 crates/burn-onnx/src/burn/codegen.rs      | 12 ++++++++++--
 crates/burn-onnx/src/burn/node/clip.rs    |  3 +++
 crates/burn-onnx/src/burn/node/gemm.rs    |  6 ++++--
 crates/burn-onnx/src/burn/node/one_hot.rs |  4 ++--
 crates/burn-onnx/src/burn/node/pad.rs     |  3 +++
 crates/burn-onnx/src/burn/node/slice.rs   | 18 ++++++++++--------
 6 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/crates/burn-onnx/src/burn/codegen.rs b/crates/burn-onnx/src/burn/codegen.rs
index 9718d8b..f7932f0 100644
--- a/crates/burn-onnx/src/burn/codegen.rs
+++ b/crates/burn-onnx/src/burn/codegen.rs
@@ -64,14 +64,22 @@ impl ToTokens for i64 {
 /// Prettier output for `f64`
 impl ToTokens for f64 {
     fn to_tokens(&self) -> TokenStream {
-        convert_primitive(self)
+        if self.is_finite() {
+            convert_primitive(self)
+        } else {
+            f64_to_tokens(*self)
+        }
     }
 }
 
 /// Prettier output for `f32`
 impl ToTokens for f32 {
     fn to_tokens(&self) -> TokenStream {
-        convert_primitive(self)
+        if self.is_finite() {
+            convert_primitive(self)
+        } else {
+            f32_to_tokens(*self)
+        }
     }
 }
 
diff --git a/crates/burn-onnx/src/burn/node/clip.rs b/crates/burn-onnx/src/burn/node/clip.rs
index 997a94a..1ac0a8e 100644
--- a/crates/burn-onnx/src/burn/node/clip.rs
+++ b/crates/burn-onnx/src/burn/node/clip.rs
@@ -29,6 +29,9 @@ impl NodeCodegen for onnx_ir::clip::ClipNode {
             None => None,
         };
 
+        let min = min.map(super::super::codegen::f64_to_tokens);
+        let max = max.map(super::super::codegen::f64_to_tokens);
+
         if let Some(min) = min {
             if let Some(max) = max {
                 quote! {
diff --git a/crates/burn-onnx/src/burn/node/gemm.rs b/crates/burn-onnx/src/burn/node/gemm.rs
index 03da5d7..1616d77 100644
--- a/crates/burn-onnx/src/burn/node/gemm.rs
+++ b/crates/burn-onnx/src/burn/node/gemm.rs
@@ -16,6 +16,8 @@ impl NodeCodegen for onnx_ir::gemm::GemmNode {
 
         let alpha = self.config.alpha;
         let beta = self.config.beta;
+        let alpha_tokens = super::super::codegen::f32_to_tokens(alpha);
+        let beta_tokens = super::super::codegen::f32_to_tokens(beta);
         let trans_a = self.config.trans_a;
         let trans_b = self.config.trans_b;
 
@@ -39,7 +41,7 @@ impl NodeCodegen for onnx_ir::gemm::GemmNode {
         // Apply alpha scaling
         let scaled_product = match alpha {
             1.0 => product,
-            _ => quote! { #product * #alpha },
+            _ => quote! { #product * #alpha_tokens },
         };
 
         // Handle optional C input with beta scaling
@@ -60,7 +62,7 @@ impl NodeCodegen for onnx_ir::gemm::GemmNode {
             // Apply beta scaling to C
             let scaled_c = match beta {
                 1.0 => c,
-                _ => quote! { (#c) * #beta },
+                _ => quote! { (#c) * #beta_tokens },
             };
 
             quote! {
diff --git a/crates/burn-onnx/src/burn/node/one_hot.rs b/crates/burn-onnx/src/burn/node/one_hot.rs
index e9ec4db..79e6b4e 100644
--- a/crates/burn-onnx/src/burn/node/one_hot.rs
+++ b/crates/burn-onnx/src/burn/node/one_hot.rs
@@ -27,8 +27,8 @@ impl NodeCodegen for onnx_ir::one_hot::OneHotNode {
         // Extract values from config.values
         let (on_value, off_value) = match &self.config.values {
             onnx_ir::one_hot::OneHotValuesInput::Static(v) => {
-                let off = v[0];
-                let on = v[1];
+                let off = super::super::codegen::f32_to_tokens(v[0]);
+                let on = super::super::codegen::f32_to_tokens(v[1]);
                 (quote! { #on }, quote! { #off })
             }
             onnx_ir::one_hot::OneHotValuesInput::Runtime(_) => {
diff --git a/crates/burn-onnx/src/burn/node/pad.rs b/crates/burn-onnx/src/burn/node/pad.rs
index 032c15e..ec55007 100644
--- a/crates/burn-onnx/src/burn/node/pad.rs
+++ b/crates/burn-onnx/src/burn/node/pad.rs
@@ -31,6 +31,9 @@ impl NodeCodegen for onnx_ir::pad::PadNode {
         let pad_mode = match &self.config.mode {
             onnx_ir::pad::PadMode::Constant => {
                 let constant_value = match &self.config.constant_value {
+                    onnx_ir::pad::ConstantValueInput::Static(value) if !value.is_finite() => {
+                        super::super::codegen::f32_to_tokens(*value)
+                    }
                     onnx_ir::pad::ConstantValueInput::Static(value) => {
                         let literal = TokenStream::from_str(&format!("{}_f32", value)).unwrap();
                         quote! { #literal }
diff --git a/crates/burn-onnx/src/burn/node/slice.rs b/crates/burn-onnx/src/burn/node/slice.rs
index 83008dd..02c7eb6 100644
--- a/crates/burn-onnx/src/burn/node/slice.rs
+++ b/crates/burn-onnx/src/burn/node/slice.rs
@@ -30,6 +30,12 @@ impl NodeCodegen for onnx_ir::slice::SliceNode {
     }
 }
 
+/// A static bound of a slice as an `i32`: a bound beyond that range is beyond every
+/// dimension, and ONNX clamps such a bound to the dimension.
+fn slice_bound(bound: i64) -> i64 {
+    bound.clamp(i32::MIN as i64, i32::MAX as i64)
+}
+
 fn generate_tensor_slice(
     node: &onnx_ir::slice::SliceNode,
     input_arg: &Argument,
@@ -57,7 +63,7 @@ fn generate_tensor_slice(
                     if let Some(&axis) = axes.get(idx) {
                         let axis_idx = axis as usize;
                         if axis_idx < rank {
-                            let start = start.to_tokens();
+                            let start = slice_bound(*start).to_tokens();
                             let step = *steps.get(idx).expect("Step value missing for axis");
 
                             // Check for i64::MAX which means "to the end"
@@ -69,10 +75,8 @@ fn generate_tensor_slice(
                                     let step = step.to_tokens();
                                     ranges[axis_idx] = quote! { #start..;#step };
                                 }
-                            } else if *end > i32::MAX as i64 {
-                                panic!("Slice end index {} exceeds i32::MAX", end);
                             } else {
-                                let end = end.to_tokens();
+                                let end = slice_bound(*end).to_tokens();
                                 if step == 1 {
                                     ranges[axis_idx] = quote! { #start..#end };
                                 } else {
@@ -87,7 +91,7 @@ fn generate_tensor_slice(
                 // No axes provided - use default behavior (slice first dimensions)
                 let limit = starts.len().min(ends.len()).min(rank);
                 for (i, range) in ranges.iter_mut().enumerate().take(limit) {
-                    let start = starts[i].to_tokens();
+                    let start = slice_bound(starts[i]).to_tokens();
                     let step = *steps.get(i).expect("Step value missing for dimension");
 
                     // Check for i64::MAX which means "to the end"
@@ -99,10 +103,8 @@ fn generate_tensor_slice(
                             let step = step.to_tokens();
                             *range = quote! { #start..;#step };
                         }
-                    } else if ends[i] > i32::MAX as i64 {
-                        panic!("Slice end index {} exceeds i32::MAX", ends[i]);
                     } else {
-                        let end = ends[i].to_tokens();
+                        let end = slice_bound(ends[i]).to_tokens();
                         if step == 1 {
                             *range = quote! { #start..#end };
                         } else {
-- 
2.43.0


From e110821bb74c20d3aa32ff37bbebcb68564bba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:02 +0000
Subject: [PATCH 44/44] fix: keep the values of OneHot that are no integers

---
 crates/burn-onnx/src/burn/node/one_hot.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/one_hot.rs b/crates/burn-onnx/src/burn/node/one_hot.rs
index 79e6b4e..fd6220f 100644
--- a/crates/burn-onnx/src/burn/node/one_hot.rs
+++ b/crates/burn-onnx/src/burn/node/one_hot.rs
@@ -25,11 +25,12 @@ impl NodeCodegen for onnx_ir::one_hot::OneHotNode {
         };
 
         // Extract values from config.values
-        let (on_value, off_value) = match &self.config.values {
+        let (on_value, off_value, not_int) = match &self.config.values {
             onnx_ir::one_hot::OneHotValuesInput::Static(v) => {
                 let off = super::super::codegen::f32_to_tokens(v[0]);
                 let on = super::super::codegen::f32_to_tokens(v[1]);
-                (quote! { #on }, quote! { #off })
+                let not_int = v.iter().any(|value| *value as i32 as f32 != *value);
+                (quote! { #on }, quote! { #off }, not_int)
             }
             onnx_ir::one_hot::OneHotValuesInput::Runtime(_) => {
                 panic!("OneHot with runtime values is not supported in burn-onnx")
@@ -69,6 +70,12 @@ impl NodeCodegen for onnx_ir::one_hot::OneHotNode {
                     }
                 }
             }
+            // An integer tensor does not hold all of the values
+            (TensorKind::Int, TensorKind::Float) if not_int => {
+                quote! {
+                    let #output = #input.float().one_hot_fill(#num_classes, #on_value, #off_value, #axis).cast(#output_dtype_tokens);
+                }
+            }
             (TensorKind::Int, TensorKind::Float) => {
                 quote! {
                     let #output = #input.one_hot_fill(#num_classes, #on_value, #off_value, #axis).float().cast(#output_dtype_tokens);
-- 
2.43.0

