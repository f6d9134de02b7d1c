From 3062c09bba2f40e28f6c1b45f6446c159ff56a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 1/6] fix: do not subtract the received amount from a virtual
 connector balance

---
 contracts/converter/converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index 197ff2d..d76e556 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -448,7 +448,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
 
         token_supply = flexible_token.totalSupply()
         connector_balance = self.getConnectorBalance(connector_token)
-        if from_conversion:
+        # the received amount is already a part of the actual balance, but not of the virtual one
+        if from_conversion and not connector.is_virtual_balance_enabled.get():
             connector_balance -= amount
 
         calculated_amount = formula.calculate_purchase_return(
@@ -502,7 +503,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')
 
         from_connector_balance = self.getConnectorBalance(from_token)
-        if from_conversion:
+        # the received amount is already a part of the actual balance, but not of the virtual one
+        if from_conversion and not from_connector.is_virtual_balance_enabled.get():
             from_connector_balance -= amount
         to_connector_balance = self.getConnectorBalance(to_token)
 
-- 
2.43.0


From 7bcb4d04c469fe1d6a775e018c43743ba718f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 2/6] fix: let the manager fund an inactive converter

---
 contracts/converter/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index d76e556..deac9af 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -228,7 +228,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_positive_value(_value)
         from_token = self.msg.sender
 
-        if (_from == self.getOwner() or _from == self.getManager) \
+        if (_from == self.getOwner() or _from == self.getManager()) \
                 and self._connectors[from_token].is_set.get() \
                 and not self._is_active():
             # If the token sender is the owner and sent token is a connector token, receives tokens
-- 
2.43.0


From 0035a95e61e486be8c81e7e80700eb80e52408ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 3/6] fix: enforce minReturn in the network whatever converter
 a path names

---
 contracts/network/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/network/network.py b/contracts/network/network.py
index d4d2033..b10f68a 100644
--- a/contracts/network/network.py
+++ b/contracts/network/network.py
@@ -241,6 +241,7 @@ class Network(TokenHolder):
         :return: tokens issued in return
         """
         (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)
+        require(amount >= min_return, "returning amount less than minimum requested amount")
 
         if self._icx_tokens[to_token_address]:
             icx_token = self.create_interface_score(to_token_address, IcxToken)
-- 
2.43.0


From 27bf55464a4c027c782bcdcf49ec63566a1a15c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 4/6] fix: find the NOTICE file when building from another
 working directory

---
 contract_generator/builder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index bfa65df..22edeb3 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -92,12 +92,13 @@ class Builder:
             path_tuple = (cur_file_path, new_file_path)
             contract.path_list.append(path_tuple)
 
-    @staticmethod
-    def _append_notice_on_path_list(contract) -> None:
+    def _append_notice_on_path_list(self, contract) -> None:
         """Appends  the NOTICE file on path list as a tuple
 
         :param contract: contact in namedtuple
         :return: None
         """
-        notice_path_tuple = 'NOTICE', path.join(contract.name, 'NOTICE')
+        # the NOTICE file lies beside the contracts directory
+        cur_file_path = path.join(self._contracts_path, path.pardir, 'NOTICE')
+        notice_path_tuple = cur_file_path, path.join(contract.name, 'NOTICE')
         contract.path_list.append(notice_path_tuple)
-- 
2.43.0


From 97d0db065245151c856810103ac9d4b406faa805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 5/6] fix: build correct package paths for any spelling of the
 contracts path

---
 contract_generator/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index 22edeb3..867c411 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -75,7 +75,7 @@ class Builder:
                 if filename == 'package.json':
                     new_file_path = path.join(contract.name, filename)
                 else:
-                    new_file_path = cur_file_path.replace(self._contracts_path, str(contract.name))
+                    new_file_path = path.join(contract.name, path.relpath(cur_file_path, self._contracts_path))
                 path_tuple = (cur_file_path, new_file_path)
                 contract.path_list.append(path_tuple)
 
-- 
2.43.0


From f2e37a29eb7c0fdae89dd4532758ca2d920228a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 6/6] fix: leave directories below tests out of the packages

---
 contract_generator/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index 867c411..2b1946c 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -63,8 +63,9 @@ class Builder:
         cur_contract_dir = path.join(self._contracts_path, contract.name)
 
         for file_path, dirs, files in walk(cur_contract_dir):
-            # Skips for tests dir because of only for testing
+            # Skips for tests dir and everything below because of only for testing
             if path.basename(file_path) == 'tests':
+                dirs.clear()
                 continue
 
             for filename in files:
-- 
2.43.0

