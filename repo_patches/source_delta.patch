From fd6eeea6c2ff3e423a657e353157facf5daf1fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 01/15] fix: report division by zero for the modulus operator
 instead of panicking

---
 src/syntax_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 90e843b..3947a47 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -157,7 +157,12 @@ impl OperationNode for BinaryNode {
                 }
                 Ok(operand_1 / operand_2)
             }
-            BinaryOperatorToken::Modulus => Ok(operand_1 % operand_2),
+            BinaryOperatorToken::Modulus => {
+                if *operand_2.numer() == BigInt::from(0) {
+                    return Err(Positioned::new(DivisionByZero, self.operator_position).into());
+                }
+                Ok(operand_1 % operand_2)
+            }
             BinaryOperatorToken::Exponent => {
                 let total_precision = args.precision + args.extra_precision;
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
-- 
2.43.0


From 181f239ace644c14e478ad795f31a7a186876bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 02/15] fix: report division by zero for zero raised to a
 negative power instead of panicking

---
 src/operations.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index 43fd238..74ddec6 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,4 +1,4 @@
-use crate::error::MathExecutionError::{self, ImaginaryResult};
+use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
     bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
@@ -81,6 +81,9 @@ pub fn exponentiate(
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
     if exponent.is_negative() {
+        if base.is_zero() {
+            return Err(DivisionByZero);
+        }
         base = base.inv();
     }
 
-- 
2.43.0


From fbf2048596d3b9ef92e10283ab5868eae9647d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 03/15] fix: refuse an output radix of 1 on the command line
 instead of panicking on output

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ac4fe58..3c7cd95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -66,7 +66,7 @@ pub struct Args {
     /// If specified, the output radix (base) will be set to this rather than being the same as the
     /// input radix.
     #[arg(long)]
-    #[arg(value_parser = clap::value_parser!(u8).range(1..17))]
+    #[arg(value_parser = clap::value_parser!(u8).range(2..=16))]
     convert_to_radix: Option<u8>,
 
     /// Maximum number of decimal digits to output.
-- 
2.43.0


From 4a8dceeae83e0cbe8ea1ef2ba17feb83d0a5e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 04/15] fix: compute the working precision of roots without
 overflowing 8 bits

---
 src/operations.rs  | 2 +-
 src/syntax_tree.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 74ddec6..2d7f508 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -76,7 +76,7 @@ pub fn make_decimal_string(
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
-    precision: u8,
+    precision: u32,
     radix: u8,
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 3947a47..12286aa 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -108,7 +108,7 @@ impl OperationNode for UnaryNode {
                 .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)?;
         match self.operator {
             UnaryOperatorToken::SquareRoot => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u32::from(args.precision) + u32::from(args.extra_precision);
                 let one_half = BigRational::new(
                     ToBigInt::to_bigint(&1).unwrap(),
                     ToBigInt::to_bigint(&2).unwrap(),
@@ -164,7 +164,7 @@ impl OperationNode for BinaryNode {
                 Ok(operand_1 % operand_2)
             }
             BinaryOperatorToken::Exponent => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u32::from(args.precision) + u32::from(args.extra_precision);
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
-- 
2.43.0


From 30de99d680dbff0e5bcaca67ce58542bb7b34065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 05/15] fix: find roots with a scaled integer search instead of
 rational Newton iterations

Roots of numbers between -1 and 1 panicked (the starting guess was 0), and
many exponents never converged because the exact fractions grew without
bound (e.g. 2^0.1).
---
 src/error.rs      |   4 ++
 src/operations.rs | 119 +++++++++++++++++-----------------------------
 2 files changed, 48 insertions(+), 75 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 1565d37..fa78d74 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -171,6 +171,7 @@ pub enum MathExecutionError {
     DivisionByZero,
     FunctionNeedsArguments(FunctionNameToken),
     ImaginaryResult,
+    RootDegreeTooLarge,
 }
 
 impl fmt::Display for MathExecutionError {
@@ -184,6 +185,9 @@ impl fmt::Display for MathExecutionError {
             MathExecutionError::ImaginaryResult => {
                 write!(f, "Unable to take the root of a negative number except unless the degree is an odd integer")
             }
+            MathExecutionError::RootDegreeTooLarge => {
+                write!(f, "Unable to take a root of such a large degree")
+            }
         }
     }
 }
diff --git a/src/operations.rs b/src/operations.rs
index 2d7f508..a5f1c71 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,7 +1,8 @@
-use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
+use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult, RootDegreeTooLarge};
 
 use num::{
-    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
+    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, One, Signed,
+    Zero,
 };
 
 /// `BigRational` only seems to support fractional string conversion, but we want to support decimal
@@ -98,99 +99,67 @@ pub fn exponentiate(
     // `r^(1/d)`.
     let radicand = base.pow(exp_num);
 
-    // Step 3: Newton's Method
+    // Step 3: Find the root
     // Given `r` and `d`, we want to compute `r^(1/d)`. We will call the result `x`.
-    // So `r^(1/d) = x`, or `r = x^d`.
-    // Newton's method concerns finding when a function reaches 0. So we will make our function
-    // `f(x) = x^d - r`.
-    // Newton's method can be summarized as iterations of `x_n+1 = x_n - f(x_n)/f'(x_n)`.
-    // (Using `x` for `x_n` below, for brevity)
-    // `x_n+1 = x - (x^d - r)/(d * x^(d - 1))`
-    // `x_n+1 = x + (r - x^d)/(d * x^(d - 1))`
-    // `x_n+1 = (r - x^d + (x * d * x^(d - 1)))/(d * x^(d - 1))`
-    // `x_n+1 = (r - x^d + d*x^d)/(d * x^(d - 1))
-    // `x_n+1 = (r + (d - 1)*x^d)/(d * x^(d - 1))
-
-    // Step 3.1: Rename, convert, and pre-calculate a few things.
     let degree = exp_denom;
     let one = BigUint::from(1u8);
-    let one_signed = BigInt::from(1);
-    let degree_ratio: BigRational = BigRational::from(BigInt::from(degree.clone()));
-    let degree_dec: BigUint = &degree - &one;
-    let degree_dec_ratio: BigRational = BigRational::from(BigInt::from(degree_dec.clone()));
-    // We are actually going to add one additional digit of precision. This prevents a rounding
-    // error from making our last guaranteed digit wrong.
-    let precision = BigUint::from(precision + 1);
-    let radix = BigInt::from(radix);
-    // The largest amount we are okay with being wrong by.
-    let max_error = BigRational::new(one_signed.clone(), radix.pow(precision).into());
-    let f_magnitude = |x: &BigInt| -> BigRational {
-        (BigRational::from(x.clone()).pow(&degree) - &radicand).abs()
-    };
-    let next_x = |x: BigRational| -> BigRational {
-        (&radicand + &degree_dec_ratio * x.clone().pow(&degree))
-            / (&degree_ratio * x.pow(&degree_dec))
-    };
 
     // We are already done.
     if degree == one {
         return Ok(radicand);
     }
 
-    // Step 3.2: Input validation. This function currently cannot output complex numbers.
+    // Step 3.1: Input validation. This function currently cannot output complex numbers.
     if radicand.is_negative() && degree.is_even() {
         return Err(ImaginaryResult);
     }
 
-    // Step 3.3: Use a binary search to find a good starting point for Newton's method. Otherwise
-    // it takes forever.
-    let mut x = {
-        let (mut lower_bound, mut upper_bound) = if radicand.is_negative() {
-            (radicand.to_integer(), BigInt::from(0))
-        } else {
-            (BigInt::from(0), radicand.to_integer())
-        };
-
-        let mut span = &upper_bound - &lower_bound;
-        while span > BigInt::ZERO {
-            let lower_guess: BigInt = (&upper_bound - &lower_bound) / 2 + &lower_bound;
-            let upper_guess: BigInt = &lower_guess + 1;
-
-            let lower_guess_error = f_magnitude(&lower_guess);
-            let upper_guess_error = f_magnitude(&upper_guess);
-
-            if lower_guess_error < upper_guess_error {
-                upper_bound = lower_guess;
-            } else {
-                lower_bound = upper_guess;
-            }
-
-            span = &upper_bound - &lower_bound;
-        }
-
-        let guess = upper_bound;
-
-        let error = f_magnitude(&guess);
-        let guess_ratio = BigRational::from(guess);
-        // Return early if it's an exact integer.
-        if error.is_zero() {
-            return Ok(guess_ratio);
-        }
-
-        guess_ratio
+    // These are their own roots, no matter what the degree is.
+    if radicand.is_zero() || radicand.abs().is_one() {
+        return Ok(radicand);
+    }
+    let degree = match u32::try_from(&degree) {
+        Ok(degree) => degree,
+        Err(_) => return Err(RootDegreeTooLarge),
     };
 
-    // Step 3.4: Newton's method
+    // Step 3.2: Rather than looking for `x` directly, we will look for `x` in units of the last
+    // digit that we care about. So if that digit is worth `1/s`, we are looking for `x * s`, which
+    // is `(r * s^d)^(1/d)`. This allows us to use integers only. The size of the numbers is then
+    // limited by the precision, whereas the fractions involved in finding the root of a fraction
+    // get unmanageably long almost immediately.
+    // We are actually going to add one additional digit of precision. This prevents a rounding
+    // error from making our last guaranteed digit wrong.
+    let scale = BigInt::from(radix).pow(precision + 1);
+    let scaled_radicand = radicand.abs() * Pow::pow(&scale, degree);
+    let target = scaled_radicand.to_integer();
+
+    // Step 3.3: Use a binary search to find the largest integer that is not above the root.
+    // Invariant: `lower_bound^d <= target < upper_bound^d`
+    let mut lower_bound = BigInt::ZERO;
+    let mut upper_bound = BigInt::from(1) << (target.bits() / u64::from(degree) + 1);
     loop {
-        let prev_x = x.clone();
-        x = next_x(x);
-        let error = (&x - prev_x).abs();
-        if error <= max_error {
+        let guess: BigInt = (&lower_bound + &upper_bound) / 2;
+        if guess == lower_bound {
             break;
         }
+        if Pow::pow(&guess, degree) <= target {
+            lower_bound = guess;
+        } else {
+            upper_bound = guess;
+        }
     }
 
-    Ok(x)
+    // Step 3.4: Convert back. If the root isn't exact, it is somewhere between the bounds, which
+    // are now adjacent. Pick the middle so that the result won't be mistaken for an exact one.
+    let exact = BigRational::from(Pow::pow(&lower_bound, degree)) == scaled_radicand;
+    let x = if exact {
+        BigRational::new(lower_bound, scale)
+    } else {
+        BigRational::new(lower_bound + upper_bound, scale * 2)
+    };
+
+    Ok(if radicand.is_negative() { -x } else { x })
 }
 
 #[cfg(test)]
-- 
2.43.0


From 84822cbef70eef9b76b891ce71941a4b19ebc201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 06/15] fix: compute roots to the precision of the output radix
 rather than the input radix

---
 src/main.rs        | 13 ++++++++-----
 src/syntax_tree.rs |  4 ++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3c7cd95..047a6e4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -93,6 +93,13 @@ pub struct Args {
     upper: bool,
 }
 
+impl Args {
+    /// The radix that results are displayed in.
+    pub fn output_radix(&self) -> u8 {
+        self.convert_to_radix.unwrap_or(self.radix)
+    }
+}
+
 fn main() -> Result<(), Box<dyn std::error::Error>> {
     let mut args = Args::parse();
     let mut command_executor = CommandExecutor::new();
@@ -573,13 +580,9 @@ fn calculate(
     if args.fractional {
         Ok(result.to_string())
     } else {
-        let output_radix = match args.convert_to_radix {
-            Some(radix) => radix,
-            None => args.radix,
-        };
         Ok(make_decimal_string(
             &result,
-            output_radix,
+            args.output_radix(),
             args.precision,
             args.commas,
             args.upper,
diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 12286aa..e675b5f 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -113,7 +113,7 @@ impl OperationNode for UnaryNode {
                     ToBigInt::to_bigint(&1).unwrap(),
                     ToBigInt::to_bigint(&2).unwrap(),
                 );
-                exponentiate(operand, one_half, total_precision, args.radix)
+                exponentiate(operand, one_half, total_precision, args.output_radix())
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
             UnaryOperatorToken::Negate => Ok(-operand),
@@ -165,7 +165,7 @@ impl OperationNode for BinaryNode {
             }
             BinaryOperatorToken::Exponent => {
                 let total_precision = u32::from(args.precision) + u32::from(args.extra_precision);
-                exponentiate(operand_1, operand_2, total_precision, args.radix)
+                exponentiate(operand_1, operand_2, total_precision, args.output_radix())
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
         }
-- 
2.43.0


From 354199070c89fa6b0abddc8ccebc0b70edfa582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 07/15] fix: use the output radix, commas and digit case for
 fractional output too

---
 src/main.rs       |  9 +++++++--
 src/operations.rs | 16 ++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 047a6e4..891ab9e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,7 +23,7 @@ use crossterm::{
 };
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
 use input_history::InputHistory;
-use operations::make_decimal_string;
+use operations::{make_decimal_string, make_fraction_string};
 use saved_data::SavedData;
 use std::{
     cmp::{max, min},
@@ -578,7 +578,12 @@ fn calculate(
     let result = st.execute(maybe_input_history_id, maybe_vars, maybe_db, args)?;
 
     if args.fractional {
-        Ok(result.to_string())
+        Ok(make_fraction_string(
+            &result,
+            args.output_radix(),
+            args.commas,
+            args.upper,
+        ))
     } else {
         Ok(make_decimal_string(
             &result,
diff --git a/src/operations.rs b/src/operations.rs
index a5f1c71..bd8f468 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -74,6 +74,22 @@ pub fn make_decimal_string(
     }
 }
 
+/// Formats the exact value as an integer or, if it isn't one, as a fraction in lowest terms.
+pub fn make_fraction_string(value: &BigRational, radix: u8, commas: bool, upper: bool) -> String {
+    let integer_string = |integer: &BigInt| -> String {
+        make_decimal_string(&integer.clone().into(), radix, 0, commas, upper)
+    };
+    if value.is_integer() {
+        integer_string(value.numer())
+    } else {
+        format!(
+            "{}/{}",
+            integer_string(value.numer()),
+            integer_string(value.denom())
+        )
+    }
+}
+
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
-- 
2.43.0


From b7375cef1a0f0197c79314723327afde5b8e17cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 08/15] fix: report a too narrow alternate screen at width 2
 instead of dividing by zero

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 891ab9e..5a6991d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -182,7 +182,7 @@ fn interactive_calc(
             let current_input = inputs.current_line();
             if args.alternate_screen || input_complete {
                 let wrap_str: String = std::iter::repeat(" ").take(PROMPT_STR.len()).collect();
-                if cols < wrap_str.len() {
+                if cols <= wrap_str.len() {
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-- 
2.43.0


From d134e1b479927bba19132130eb1ac074c0a53a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 09/15] fix: scroll the alternate screen when the input or
 output reaches its bottom

MoveToNextLine does not scroll, so once the screen was full every answer and
every wrapped input row was drawn over the last row and erased by the next
prompt.
---
 src/main.rs | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5a6991d..641d621 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ mod variable;
 use clap::Parser;
 use commands::CommandExecutor;
 use crossterm::{
-    cursor::{self, MoveTo, MoveToColumn, MoveToNextLine},
+    cursor::{self, MoveTo, MoveToColumn},
     event::{self, Event, KeyCode, KeyModifiers},
     execute, queue,
     style::Print,
@@ -169,7 +169,7 @@ fn interactive_calc(
     'calculate: loop {
         let mut cursor_pos: usize = 0;
         let mut scroll_offset: usize = 0;
-        let input_start = cursor::position()?;
+        let mut input_start = cursor::position()?;
         let mut cols = usize::from(terminal::size()?.0);
         let mut input_complete = false;
 
@@ -186,7 +186,7 @@ fn interactive_calc(
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-                let cursor_row: u16 = u16::try_from(cursor_pos / available_cols)? + input_start.1;
+                let cursor_row: u16 = u16::try_from(cursor_pos / available_cols)?;
                 let cursor_col: u16 =
                     u16::try_from((cursor_pos % available_cols) + wrap_str.len())?;
                 let mut end_index = min(available_cols, current_input.len());
@@ -208,31 +208,34 @@ fn interactive_calc(
                     Print(&current_input[0..end_index])
                 )?;
                 let mut current_index = end_index;
+                let mut row_count: u16 = 1;
                 while current_index < current_input.len() {
                     end_index = min(current_index + available_cols, current_input.len());
-                    if args.alternate_screen {
-                        queue!(stdout, MoveToNextLine(1))?;
-                    } else {
-                        // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                        // alternate screen.
-                        queue!(stdout, Print("\n"), MoveToColumn(0))?;
-                    }
+                    // Unlike MoveToNextLine, this scrolls if we are at the bottom of the screen.
+                    queue!(stdout, Print("\n"), MoveToColumn(0))?;
                     queue!(
                         stdout,
                         Print(&wrap_str),
                         Print(&current_input[current_index..end_index])
                     )?;
                     current_index = end_index;
+                    row_count += 1;
                 }
                 if input_complete {
-                    if args.alternate_screen {
-                        queue!(stdout, MoveToNextLine(1))?;
-                    } else {
-                        // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                        // alternate screen.
-                        queue!(stdout, Print("\n"), MoveToColumn(0))?;
-                    }
+                    // Unlike MoveToNextLine, this scrolls if we are at the bottom of the screen.
+                    queue!(stdout, Print("\n"), MoveToColumn(0))?;
                 } else {
+                    if cursor_row >= row_count {
+                        // The last row is full, so the cursor goes at the beginning of the next.
+                        queue!(stdout, Print("\n"))?;
+                        row_count += 1;
+                    }
+                    // If we reached the bottom of the screen, everything has been scrolled up.
+                    let rows = terminal::size()?.1;
+                    let scrolled_rows = (input_start.1 + row_count).saturating_sub(rows);
+                    let hidden_rows = scrolled_rows.saturating_sub(input_start.1);
+                    input_start.1 = input_start.1.saturating_sub(scrolled_rows);
+                    let cursor_row = (input_start.1 + cursor_row).saturating_sub(hidden_rows);
                     queue!(stdout, MoveTo(cursor_col, cursor_row))?;
                 }
                 stdout.flush()?;
@@ -503,13 +506,7 @@ fn interactive_calc(
         // column 0. So we need to make sure that we do that manually.
         for line in output.split('\n') {
             queue!(stdout, Print(line))?;
-            if args.alternate_screen {
-                queue!(stdout, MoveToNextLine(1))?;
-            } else {
-                // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                // alternate screen.
-                queue!(stdout, Print("\n"), MoveToColumn(0))?;
-            }
+            queue!(stdout, Print("\n"), MoveToColumn(0))?;
         }
         stdout.flush()?;
     } // 'calculate: loop
-- 
2.43.0


From ac70ff2991c27737d76faadc395f4171621eff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 10/15] fix: wait for other instances instead of failing when
 starting or recording an input

Both transactions read before they write. Upgrading a read transaction while
another instance writes fails at once with 'database is locked'.
---
 src/saved_data.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 005f008..2776c58 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -1,7 +1,7 @@
 use crate::error::CalculatorDatabaseInconsistencyError;
 use crate::variable::Variable;
 use num::{bigint::BigInt, rational::BigRational};
-use rusqlite::{self, named_params, OptionalExtension, Transaction};
+use rusqlite::{self, named_params, OptionalExtension, Transaction, TransactionBehavior};
 use std::{env, fs::create_dir, io, path::Path};
 
 const DATA_ROOT_DIR_ENV_VAR_NAME: &str = "_B_UTIL_DATA_DIR";
@@ -136,7 +136,9 @@ impl SavedData {
         let mut connection = rusqlite::Connection::open(db_path)?;
         connection.execute("PRAGMA foreign_keys = ON;", ())?;
 
-        let transaction = connection.transaction()?;
+        // This transaction reads before it writes. If it didn't claim the right to write up front, it
+        // would fail rather than wait if another bcalc instance was already writing.
+        let transaction = connection.transaction_with_behavior(TransactionBehavior::Immediate)?;
 
         transaction.execute(
             "CREATE TABLE IF NOT EXISTS meta_int(
@@ -241,7 +243,9 @@ impl SavedData {
     /// history until the expected maximum size is reached.
     /// Returns the id of the history entry that was inserted.
     pub fn add_to_input_history(&mut self, input: &str) -> Result<i64, Box<dyn std::error::Error>> {
-        let mut transaction = self.connection.transaction()?;
+        let mut transaction = self
+            .connection
+            .transaction_with_behavior(TransactionBehavior::Immediate)?;
         let maybe_orig_front: Option<i64> = transaction.query_row(
             "SELECT value FROM input_history_tags WHERE key=:key",
             named_params! {
-- 
2.43.0


From 483028ba3d09afe5592dd11ec9ebca12fadaddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 11/15] fix: keep powers with long fractional exponents from
 running forever

Only the leading bits of a power are needed to find a root, and exponents
like the one of 2^sqrt(2) are refused rather than evaluated exactly.
---
 src/error.rs      |   6 +--
 src/operations.rs | 106 ++++++++++++++++++++++++++++++++++------------
 2 files changed, 83 insertions(+), 29 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index fa78d74..207e8f3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -170,8 +170,8 @@ pub enum MathExecutionError {
     UnknownVariable(String),
     DivisionByZero,
     FunctionNeedsArguments(FunctionNameToken),
+    FractionalExponentTooLong,
     ImaginaryResult,
-    RootDegreeTooLarge,
 }
 
 impl fmt::Display for MathExecutionError {
@@ -185,8 +185,8 @@ impl fmt::Display for MathExecutionError {
             MathExecutionError::ImaginaryResult => {
                 write!(f, "Unable to take the root of a negative number except unless the degree is an odd integer")
             }
-            MathExecutionError::RootDegreeTooLarge => {
-                write!(f, "Unable to take a root of such a large degree")
+            MathExecutionError::FractionalExponentTooLong => {
+                write!(f, "Unable to use such a long fractional exponent")
             }
         }
     }
diff --git a/src/operations.rs b/src/operations.rs
index bd8f468..913c8ce 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,4 +1,8 @@
-use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult, RootDegreeTooLarge};
+use std::cmp::Ordering;
+
+use crate::error::MathExecutionError::{
+    self, DivisionByZero, FractionalExponentTooLong, ImaginaryResult,
+};
 
 use num::{
     bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, One, Signed,
@@ -90,6 +94,54 @@ pub fn make_fraction_string(value: &BigRational, radix: u8, commas: bool, upper:
     }
 }
 
+/// Roots that involve longer numbers than this would take too long to compute.
+const MAX_ROOT_BITS: u32 = 1 << 23;
+
+/// Compares `base^exponent` to `numer/denom`.
+fn compare_power(base: &BigUint, exponent: u32, numer: &BigUint, denom: &BigUint) -> Ordering {
+    // Usually, the leading bits are all that is needed. So we only keep track of those, rounding
+    // down in `low` and up in `high`. `shift` is the number of bits that were left off.
+    let keep_bits = base.bits() + 2 * u64::from(u32::BITS);
+    let mut low = BigUint::one();
+    let mut high = BigUint::one();
+    let mut shift: u64 = 0;
+    for bit in (0..u32::BITS).rev() {
+        low = &low * &low;
+        high = &high * &high;
+        shift *= 2;
+        if (exponent >> bit) & 1 == 1 {
+            low *= base;
+            high *= base;
+        }
+        let excess = high.bits().saturating_sub(keep_bits);
+        if excess > 0 {
+            low >>= excess;
+            high = (high >> excess) + 1u8;
+            shift += excess;
+        }
+    }
+
+    let leading_bits = |value: &BigUint| {
+        let shift = value.bits().saturating_sub(keep_bits);
+        let low = value >> shift;
+        let high = &low + u8::from(shift > 0);
+        (low, high, shift)
+    };
+    let (numer_low, numer_high, numer_shift) = leading_bits(numer);
+    let (denom_low, denom_high, denom_shift) = leading_bits(denom);
+
+    // Compare `base^exponent * denom` to `numer`.
+    let left_shift = (shift + denom_shift).saturating_sub(numer_shift);
+    let right_shift = numer_shift.saturating_sub(shift + denom_shift);
+    if (high * denom_high) << left_shift < numer_low << right_shift {
+        Ordering::Less
+    } else if (low * denom_low) << left_shift > numer_high << right_shift {
+        Ordering::Greater
+    } else {
+        (Pow::pow(base, exponent) * denom).cmp(numer)
+    }
+}
+
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
@@ -113,6 +165,10 @@ pub fn exponentiate(
 
     // Step 2: Convert `b^(n/d)` to `(b^n)^(1/d)` and compute `r = b^n` so we are left with
     // `r^(1/d)`.
+    let base_bits = base.numer().bits().max(base.denom().bits());
+    if !exp_denom.is_one() && base_bits > 1 && &exp_num * base_bits > MAX_ROOT_BITS.into() {
+        return Err(FractionalExponentTooLong);
+    }
     let radicand = base.pow(exp_num);
 
     // Step 3: Find the root
@@ -134,9 +190,13 @@ pub fn exponentiate(
     if radicand.is_zero() || radicand.abs().is_one() {
         return Ok(radicand);
     }
+    let scale_bits = (u64::from(precision) + 1) * u64::from(u8::BITS - radix.leading_zeros());
+    if &degree * scale_bits > MAX_ROOT_BITS.into() {
+        return Err(FractionalExponentTooLong);
+    }
     let degree = match u32::try_from(&degree) {
         Ok(degree) => degree,
-        Err(_) => return Err(RootDegreeTooLarge),
+        Err(_) => return Err(FractionalExponentTooLong),
     };
 
     // Step 3.2: Rather than looking for `x` directly, we will look for `x` in units of the last
@@ -146,33 +206,27 @@ pub fn exponentiate(
     // get unmanageably long almost immediately.
     // We are actually going to add one additional digit of precision. This prevents a rounding
     // error from making our last guaranteed digit wrong.
-    let scale = BigInt::from(radix).pow(precision + 1);
-    let scaled_radicand = radicand.abs() * Pow::pow(&scale, degree);
-    let target = scaled_radicand.to_integer();
-
-    // Step 3.3: Use a binary search to find the largest integer that is not above the root.
-    // Invariant: `lower_bound^d <= target < upper_bound^d`
-    let mut lower_bound = BigInt::ZERO;
-    let mut upper_bound = BigInt::from(1) << (target.bits() / u64::from(degree) + 1);
-    loop {
-        let guess: BigInt = (&lower_bound + &upper_bound) / 2;
+    let scale = BigUint::from(radix).pow(precision + 1);
+    let numer = radicand.numer().magnitude() * Pow::pow(&scale, degree);
+    let denom = radicand.denom().magnitude();
+
+    // Step 3.3: Use a binary search to find the adjacent integers that the root is between, unless
+    // the root turns out to be an integer.
+    // Invariant: `lower_bound^d < numer/denom < upper_bound^d`
+    let mut lower_bound = BigUint::ZERO;
+    let mut upper_bound =
+        BigUint::one() << ((numer.bits() + 1).saturating_sub(denom.bits()) / u64::from(degree) + 1);
+    let x = loop {
+        let guess: BigUint = (&lower_bound + &upper_bound) / 2u8;
         if guess == lower_bound {
-            break;
+            // Pick the middle so that the result won't be mistaken for an exact one.
+            break BigRational::new((lower_bound + upper_bound).into(), (scale * 2u8).into());
         }
-        if Pow::pow(&guess, degree) <= target {
-            lower_bound = guess;
-        } else {
-            upper_bound = guess;
+        match compare_power(&guess, degree, &numer, denom) {
+            Ordering::Less => lower_bound = guess,
+            Ordering::Equal => break BigRational::new(guess.into(), scale.into()),
+            Ordering::Greater => upper_bound = guess,
         }
-    }
-
-    // Step 3.4: Convert back. If the root isn't exact, it is somewhere between the bounds, which
-    // are now adjacent. Pick the middle so that the result won't be mistaken for an exact one.
-    let exact = BigRational::from(Pow::pow(&lower_bound, degree)) == scaled_radicand;
-    let x = if exact {
-        BigRational::new(lower_bound, scale)
-    } else {
-        BigRational::new(lower_bound + upper_bound, scale * 2)
     };
 
     Ok(if radicand.is_negative() { -x } else { x })
-- 
2.43.0


From 43d93549cdcae65f80edae6a09a1b691614707c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 12/15] fix: keep the cursor on its character in a five column
 terminal

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 641d621..2510d2a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -259,7 +259,7 @@ fn interactive_calc(
                         scroll_offset = 0;
                     } else {
                         let rel_cursor_pos =
-                            max(1, min(scroll_window_size, (scroll_window_size / 3) * 2));
+                            min(scroll_window_size - 1, max(1, (scroll_window_size / 3) * 2));
                         if cursor_pos < rel_cursor_pos {
                             scroll_offset = 0
                         } else {
-- 
2.43.0


From 9893b30f00d2b6155e03c70a4feb90ae3cbd20d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 13/15] fix: name the number that could not be parsed in a list
 of integers

A word that is no number was reported as an invalid variable name.
---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 1d84b70..06a1d04 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -375,7 +375,7 @@ impl Tokenizer {
             Err(positioned_error) => {
                 let message = match positioned_error.value {
                     ParseError::InvalidVariable(s) | ParseError::InvalidNumber(s) => {
-                        ParseError::InvalidVariable(s).to_string()
+                        ParseError::InvalidNumber(s).to_string()
                     }
                     ParseError::NonAscii => ParseError::NonAscii.to_string(),
                 };
-- 
2.43.0


From f711e43455d6c4689293e4e8af360bec895e63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:21 +0000
Subject: [PATCH 14/15] fix: a data directory whose name begins with file: is a
 directory like any other

SQLite takes a path that begins with file: for a URI, so a relative data
directory such as "file:x" was opened as x, and "file:" as the root directory.
---
 src/saved_data.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 2776c58..8cb72c9 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -126,7 +126,8 @@ impl SavedData {
             Err(env::VarError::NotPresent) => return Ok(None),
             Err(e) => return Err(e.into()),
         };
-        let data_dir_path = Path::new(&data_dir_path_str).join(DATA_DIR_NAME);
+        // Starting from `.` keeps SQLite from taking a relative path like `file:x` for a URI.
+        let data_dir_path = Path::new(".").join(data_dir_path_str).join(DATA_DIR_NAME);
         if let Err(e) = create_dir(data_dir_path.clone()) {
             if e.kind() != io::ErrorKind::AlreadyExists {
                 return Err(e.into());
-- 
2.43.0


From 4980d1833fc6cc61de2dabab9fe57947e9035250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:06 +0000
Subject: [PATCH 15/15] fix: a line that takes more than 65535 rows does not
 end the program

The rows of a wrapped line were counted in 16 bits.
---
 src/main.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2510d2a..ec948b5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -186,7 +186,7 @@ fn interactive_calc(
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-                let cursor_row: u16 = u16::try_from(cursor_pos / available_cols)?;
+                let cursor_row = cursor_pos / available_cols;
                 let cursor_col: u16 =
                     u16::try_from((cursor_pos % available_cols) + wrap_str.len())?;
                 let mut end_index = min(available_cols, current_input.len());
@@ -208,7 +208,7 @@ fn interactive_calc(
                     Print(&current_input[0..end_index])
                 )?;
                 let mut current_index = end_index;
-                let mut row_count: u16 = 1;
+                let mut row_count: usize = 1;
                 while current_index < current_input.len() {
                     end_index = min(current_index + available_cols, current_input.len());
                     // Unlike MoveToNextLine, this scrolls if we are at the bottom of the screen.
@@ -231,11 +231,14 @@ fn interactive_calc(
                         row_count += 1;
                     }
                     // If we reached the bottom of the screen, everything has been scrolled up.
-                    let rows = terminal::size()?.1;
-                    let scrolled_rows = (input_start.1 + row_count).saturating_sub(rows);
-                    let hidden_rows = scrolled_rows.saturating_sub(input_start.1);
-                    input_start.1 = input_start.1.saturating_sub(scrolled_rows);
-                    let cursor_row = (input_start.1 + cursor_row).saturating_sub(hidden_rows);
+                    let rows = usize::from(terminal::size()?.1);
+                    let start_row = usize::from(input_start.1);
+                    let scrolled_rows = (start_row + row_count).saturating_sub(rows);
+                    let hidden_rows = scrolled_rows.saturating_sub(start_row);
+                    let start_row = start_row.saturating_sub(scrolled_rows);
+                    let cursor_row: u16 =
+                        u16::try_from((start_row + cursor_row).saturating_sub(hidden_rows))?;
+                    input_start.1 = u16::try_from(start_row)?;
                     queue!(stdout, MoveTo(cursor_col, cursor_row))?;
                 }
                 stdout.flush()?;
-- 
2.43.0

