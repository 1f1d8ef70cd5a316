From 564e274c6044cd640cabdf8d08ea6e03bfb8cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 01/38] fix: look matches up by their own reconciliation_id

blnk.external_transactions has no reconciliation_id column, so
GetMatchesByReconciliationID always failed against a real database.
---
 database/reconciliation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/reconciliation.go b/database/reconciliation.go
index 1ede9d5..4d45b3f 100644
--- a/database/reconciliation.go
+++ b/database/reconciliation.go
@@ -309,7 +309,7 @@ func (d Datasource) GetMatchesByReconciliationID(ctx context.Context, reconcilia
 		SELECT m.external_transaction_id, m.internal_transaction_id, m.amount, m.date
 		FROM blnk.matches m
 		JOIN blnk.external_transactions et ON m.external_transaction_id = et.id
-		WHERE et.reconciliation_id = $1
+		WHERE m.reconciliation_id = $1
 	`, reconciliationID)
 	if err != nil {
 		return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to retrieve matches", err)
-- 
2.43.0


From 24bfe0948ab860c99e340119484f3a4a0155fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:48 +0000
Subject: [PATCH 02/38] fix: report a failed shadow-transaction lookup instead
 of an empty lineage

---
 lineage_queries.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lineage_queries.go b/lineage_queries.go
index ae85f48..c349541 100644
--- a/lineage_queries.go
+++ b/lineage_queries.go
@@ -147,9 +147,10 @@ func (l *Blnk) GetTransactionLineage(ctx context.Context, transactionID string)
 	}
 
 	shadowTxns, err := l.datasource.GetTransactionsByShadowFor(ctx, transactionID)
-	if err == nil {
-		lineage.ShadowTransactions = shadowTxns
+	if err != nil {
+		return nil, fmt.Errorf("failed to get shadow transactions: %w", err)
 	}
+	lineage.ShadowTransactions = shadowTxns
 
 	return lineage, nil
 }
-- 
2.43.0


From c340c5b5f4c8322caf25ac33002f007f37ff86db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:23 +0000
Subject: [PATCH 03/38] fix: retry lineage work whose balances could not be
 read instead of completing it

---
 lineage_outbox.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lineage_outbox.go b/lineage_outbox.go
index 8c14267..12c5ba4 100644
--- a/lineage_outbox.go
+++ b/lineage_outbox.go
@@ -175,13 +175,13 @@ func (l *Blnk) ProcessLineageFromOutbox(ctx context.Context, entry model.Lineage
 	if entry.SourceBalanceID != "" {
 		sourceBalance, err = l.datasource.GetBalanceByIDLite(entry.SourceBalanceID)
 		if err != nil {
-			logrus.Warnf("failed to get source balance %s for lineage processing: %v", entry.SourceBalanceID, err)
+			return fmt.Errorf("failed to get source balance %s for lineage processing: %w", entry.SourceBalanceID, err)
 		}
 	}
 	if entry.DestinationBalanceID != "" {
 		destinationBalance, err = l.datasource.GetBalanceByIDLite(entry.DestinationBalanceID)
 		if err != nil {
-			logrus.Warnf("failed to get destination balance %s for lineage processing: %v", entry.DestinationBalanceID, err)
+			return fmt.Errorf("failed to get destination balance %s for lineage processing: %w", entry.DestinationBalanceID, err)
 		}
 	}
 
-- 
2.43.0


From 49dd0c8a12fb4a8da560e707350512f284f1158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 04/38] fix: keep debit lineage work for retry when a lookup or
 destination balance fails

---
 lineage_debit.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lineage_debit.go b/lineage_debit.go
index c5f6cb2..24d8922 100644
--- a/lineage_debit.go
+++ b/lineage_debit.go
@@ -23,7 +23,6 @@ import (
 
 	redlock "github.com/blnkfinance/blnk/internal/lock"
 	"github.com/blnkfinance/blnk/model"
-	"github.com/sirupsen/logrus"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/trace"
 )
@@ -43,8 +42,7 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 		// If so, retry later after those credits are processed
 		hasPending, err := l.datasource.HasPendingCreditOutbox(ctx, sourceBalance.BalanceID)
 		if err != nil {
-			logrus.Warnf("failed to check pending credit outbox for balance %s: %v", sourceBalance.BalanceID, err)
-			return nil
+			return fmt.Errorf("failed to check pending credit outbox for balance %s: %w", sourceBalance.BalanceID, err)
 		}
 		if hasPending {
 			return fmt.Errorf("pending credit outbox entries exist for balance %s, retry later", sourceBalance.BalanceID)
@@ -64,12 +62,11 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 	if destinationBalance != nil && destinationBalance.TrackFundLineage && destinationBalance.IdentityID != "" {
 		destLineageBalances, err = l.prepareDestinationLineageBalances(ctx, mappings, destinationBalance)
 		if err != nil {
-			logrus.Warnf("failed to prepare destination lineage balances: %v", err)
-		} else {
-			for _, info := range destLineageBalances {
-				lockKeys = append(lockKeys, info.shadowBalance.BalanceID)
-				lockKeys = append(lockKeys, info.aggregateBalance.BalanceID)
-			}
+			return fmt.Errorf("failed to prepare destination lineage balances: %w", err)
+		}
+		for _, info := range destLineageBalances {
+			lockKeys = append(lockKeys, info.shadowBalance.BalanceID)
+			lockKeys = append(lockKeys, info.aggregateBalance.BalanceID)
 		}
 	}
 
-- 
2.43.0


From 97bde62eee1bb92bd874313721169f23a4f5c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 05/38] fix: credit lineage is retried until its mapping is
 stored, without repeating the shadow transaction

---
 lineage_credit.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lineage_credit.go b/lineage_credit.go
index 08da11f..e1801a8 100644
--- a/lineage_credit.go
+++ b/lineage_credit.go
@@ -22,7 +22,6 @@ import (
 	"math/big"
 
 	"github.com/blnkfinance/blnk/model"
-	"github.com/sirupsen/logrus"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/trace"
 )
@@ -50,14 +49,14 @@ func (l *Blnk) processLineageCredit(ctx context.Context, txn *model.Transaction,
 	}
 	defer l.releaseLock(ctx, locker)
 
-	if err := l.queueShadowCreditTransaction(ctx, txn, destBalance, provider, shadowBalance, aggregateBalance, identityID); err != nil {
+	// A retry after a failure below finds the shadow transaction already recorded.
+	if err := l.queueShadowCreditTransaction(ctx, txn, destBalance, provider, shadowBalance, aggregateBalance, identityID); err != nil && !IsDuplicateReferenceError(err) {
 		return err
 	}
 
 	if err := l.upsertCreditLineageMapping(ctx, destBalance, provider, shadowBalance, aggregateBalance, identityID); err != nil {
-		logrus.Errorf("failed to create lineage mapping after shadow transaction: %v (txn: %s, provider: %s)", err, txn.TransactionID, provider)
 		span.RecordError(err)
-		// Don't return error - shadow transaction succeeded, mapping is for optimization
+		return fmt.Errorf("failed to create lineage mapping after shadow transaction (txn: %s, provider: %s): %w", txn.TransactionID, provider, err)
 	}
 
 	span.AddEvent("Lineage credit processed", trace.WithAttributes(
-- 
2.43.0


From 116c02b511108348d8a27bf52c34a108973ec1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:59 +0000
Subject: [PATCH 06/38] fix: GetBalancesByIDsLite fails instead of leaving out
 a balance it cannot read

---
 database/balance.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/database/balance.go b/database/balance.go
index 56b0eed..7cd5a45 100644
--- a/database/balance.go
+++ b/database/balance.go
@@ -481,8 +481,7 @@ func (d Datasource) GetBalancesByIDsLite(ctx context.Context, ids []string) (map
 			&balance.IdentityID,
 		)
 		if err != nil {
-			logrus.WithError(err).Error("balance batch scan failed")
-			continue
+			return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to scan balance", err)
 		}
 
 		if indicator.Valid {
-- 
2.43.0


From ea7fbec6e214f5998b4f005d547bbb36ecb7d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 07/38] fix: list queries report an iteration that ended early

---
 database/account.go | 4 ++++
 database/api_key.go | 8 ++++++++
 database/balance.go | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/database/account.go b/database/account.go
index 0b60bfc..1a8aced 100644
--- a/database/account.go
+++ b/database/account.go
@@ -317,6 +317,10 @@ func (d Datasource) GetAllAccounts() ([]model.Account, error) {
 		accounts = append(accounts, account)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	// Return the list of accounts
 	return accounts, nil
 }
diff --git a/database/api_key.go b/database/api_key.go
index fa05ae8..c2c1a3c 100644
--- a/database/api_key.go
+++ b/database/api_key.go
@@ -185,6 +185,10 @@ func (s *Datasource) GetAPIKey(ctx context.Context, key string) (*model.APIKey,
 		}
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return nil, ErrAPIKeyNotFound
 }
 
@@ -329,5 +333,9 @@ func (s *Datasource) ListAPIKeys(ctx context.Context, ownerID string) ([]*model.
 		apiKeys = append(apiKeys, apiKey)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return apiKeys, nil
 }
diff --git a/database/balance.go b/database/balance.go
index 7cd5a45..7fc08fc 100644
--- a/database/balance.go
+++ b/database/balance.go
@@ -722,6 +722,10 @@ func (d Datasource) GetAllBalances(limit, offset int) ([]model.Balance, error) {
 		balances = append(balances, balance)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return balances, nil
 }
 
-- 
2.43.0


From 8997439f1cb04f5cb2127bb520cdf8dbed3d038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 08/38] fix: close the response body of outgoing JSON calls

---
 internal/request/request.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/request/request.go b/internal/request/request.go
index 28be157..21b1818 100644
--- a/internal/request/request.go
+++ b/internal/request/request.go
@@ -66,6 +66,7 @@ func Call(req *http.Request, response interface{}) (*http.Response, error) {
 	if err != nil {
 		return resp, err
 	}
+	defer func() { _ = resp.Body.Close() }()
 
 	// Decode the JSON response into the provided response structure
 	err = json.NewDecoder(resp.Body).Decode(&response)
-- 
2.43.0


From 84817e24d3026df6dcd73e8770995da9ec5557de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 09/38] fix: close the configuration file after reading it

---
 config/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/config.go b/config/config.go
index d2f80d6..d87c974 100644
--- a/config/config.go
+++ b/config/config.go
@@ -275,6 +275,7 @@ func loadConfigFromFile(file string) error {
 		if err != nil {
 			return err
 		}
+		defer func() { _ = f.Close() }()
 		err = json.NewDecoder(f).Decode(&cnf)
 		if err != nil {
 			return err
-- 
2.43.0


From e12b1b9b7d14c3fb00c8d2c3f9438ee915fdffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:39 +0000
Subject: [PATCH 10/38] fix: remove the temporary upload file when it cannot be
 filled

---
 internal/files/files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/files/files.go b/internal/files/files.go
index ec10358..d25394c 100644
--- a/internal/files/files.go
+++ b/internal/files/files.go
@@ -95,14 +95,17 @@ func createAndPopulateTempFile(filename string, reader io.Reader) (*os.File, err
 	// Use buffered writer for faster writes
 	writer := bufio.NewWriterSize(tempFile, DefaultBufferSize)
 	if _, err := io.Copy(writer, reader); err != nil {
+		cleanupTempFile(tempFile)
 		return nil, fmt.Errorf("error copying upload data: %w", err)
 	}
 
 	if err := writer.Flush(); err != nil {
+		cleanupTempFile(tempFile)
 		return nil, fmt.Errorf("error flushing temporary file: %w", err)
 	}
 
 	if _, err := tempFile.Seek(0, 0); err != nil {
+		cleanupTempFile(tempFile)
 		return nil, fmt.Errorf("error seeking temporary file: %w", err)
 	}
 
-- 
2.43.0


From de9c985955c445c6ba2e0a8c42e6658ad3e24e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:14 +0000
Subject: [PATCH 11/38] fix: a preview fails when a balance lookup fails
 instead of assuming a new balance

---
 transaction_dryrun.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transaction_dryrun.go b/transaction_dryrun.go
index 2b1c8e8..9c3a57d 100644
--- a/transaction_dryrun.go
+++ b/transaction_dryrun.go
@@ -442,6 +442,10 @@ func (l *Blnk) resolveBalanceForPreview(ctx context.Context, identifier, currenc
 
 	if strings.HasPrefix(identifier, "@") {
 		balance, err := l.datasource.GetBalanceByIndicator(identifier, currency)
+		if err != nil && !strings.Contains(err.Error(), "not found") {
+			span.RecordError(err)
+			return nil, err
+		}
 		if err != nil {
 			// The indicator has no balance yet. A real post would create one
 			// and start it at zero, so project against that rather than
-- 
2.43.0


From ec59be2ce41e81bbdb9aab5807c987780f9e590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:43 +0000
Subject: [PATCH 12/38] fix: an untracked credit entry still completes when its
 source cannot be read

---
 lineage_outbox.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lineage_outbox.go b/lineage_outbox.go
index 12c5ba4..b3915e0 100644
--- a/lineage_outbox.go
+++ b/lineage_outbox.go
@@ -172,11 +172,9 @@ func (l *Blnk) ProcessLineageFromOutbox(ctx context.Context, entry model.Lineage
 
 	// Fetch balances
 	var sourceBalance, destinationBalance *model.Balance
+	var sourceErr error
 	if entry.SourceBalanceID != "" {
-		sourceBalance, err = l.datasource.GetBalanceByIDLite(entry.SourceBalanceID)
-		if err != nil {
-			return fmt.Errorf("failed to get source balance %s for lineage processing: %w", entry.SourceBalanceID, err)
-		}
+		sourceBalance, sourceErr = l.datasource.GetBalanceByIDLite(entry.SourceBalanceID)
 	}
 	if entry.DestinationBalanceID != "" {
 		destinationBalance, err = l.datasource.GetBalanceByIDLite(entry.DestinationBalanceID)
@@ -184,6 +182,13 @@ func (l *Blnk) ProcessLineageFromOutbox(ctx context.Context, entry model.Lineage
 			return fmt.Errorf("failed to get destination balance %s for lineage processing: %w", entry.DestinationBalanceID, err)
 		}
 	}
+	if sourceErr != nil {
+		// A credit entry whose destination is not tracked has nothing to process; any other entry needs the source.
+		if entry.LineageType != model.LineageTypeCredit || destinationBalance == nil || destinationBalance.TrackFundLineage {
+			return fmt.Errorf("failed to get source balance %s for lineage processing: %w", entry.SourceBalanceID, sourceErr)
+		}
+		logrus.Warnf("failed to get source balance %s for lineage processing: %v", entry.SourceBalanceID, sourceErr)
+	}
 
 	if err := l.processLineage(ctx, txn, sourceBalance, destinationBalance); err != nil {
 		return err
-- 
2.43.0


From 6e0e5e701bd40b5f8febb1c7a03a023438d55bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 13/38] fix: updating or deleting an account that does not
 exist fails

---
 database/account.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/database/account.go b/database/account.go
index 1a8aced..594f39b 100644
--- a/database/account.go
+++ b/database/account.go
@@ -374,14 +374,25 @@ func (d Datasource) UpdateAccount(account *model.Account) error {
 	}
 
 	// Execute the SQL update statement
-	_, err = d.Conn.ExecContext(context.Background(), `
+	result, err := d.Conn.ExecContext(context.Background(), `
 		UPDATE blnk.accounts
 		SET name = $2, number = $3, bank_name = $4, meta_data = $5
 		WHERE account_id = $1
 	`, account.AccountID, account.Name, account.Number, account.BankName, metaDataJSON)
+	if err != nil {
+		return err
+	}
+
+	// An update that matched no account is a failure
+	rowsAffected, err := result.RowsAffected()
+	if err != nil {
+		return err
+	}
+	if rowsAffected == 0 {
+		return apierror.NewAPIError(apierror.ErrNotFound, fmt.Sprintf("Account with ID '%s' not found", account.AccountID), nil)
+	}
 
-	// Return any errors encountered during the update
-	return err
+	return nil
 }
 
 // DeleteAccount deletes a specific account from the database.
@@ -392,12 +403,23 @@ func (d Datasource) UpdateAccount(account *model.Account) error {
 // - An error if the deletion fails, otherwise returns nil.
 func (d Datasource) DeleteAccount(id string) error {
 	// Execute the SQL delete statement
-	_, err := d.Conn.ExecContext(context.Background(), `
+	result, err := d.Conn.ExecContext(context.Background(), `
 		DELETE FROM blnk.accounts WHERE account_id = $1
 	`, id)
+	if err != nil {
+		return err
+	}
+
+	// A deletion that matched no account is a failure
+	rowsAffected, err := result.RowsAffected()
+	if err != nil {
+		return err
+	}
+	if rowsAffected == 0 {
+		return apierror.NewAPIError(apierror.ErrNotFound, fmt.Sprintf("Account with ID '%s' not found", id), nil)
+	}
 
-	// Return any errors encountered during the deletion
-	return err
+	return nil
 }
 
 // GetAllAccountsWithFilter retrieves accounts with advanced filtering support.
-- 
2.43.0


From 2d08d237ddcd68d6fc50f5b22f4c84dc1415ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 14/38] fix: a queued inflight action with an unreadable amount
 is refused instead of taking the whole hold

---
 cmd/workers.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/workers.go b/cmd/workers.go
index fa971ea..77deb3d 100644
--- a/cmd/workers.go
+++ b/cmd/workers.go
@@ -309,9 +309,14 @@ func (b *blnkInstance) processInflightCommit(ctx context.Context, t *asynq.Task)
 
 	amount := big.NewInt(0)
 	if p.PreciseAmount != "" {
-		if parsed, ok := new(big.Int).SetString(p.PreciseAmount, 10); ok {
-			amount = parsed
+		parsed, ok := new(big.Int).SetString(p.PreciseAmount, 10)
+		if !ok {
+			// Zero would mean "the whole hold": an amount that cannot be read must not become one.
+			err := fmt.Errorf("invalid precise amount %q for inflight action: %w", p.PreciseAmount, asynq.SkipRetry)
+			logrus.WithError(err).WithField("transaction_id", p.TransactionID).Error("refusing inflight action")
+			return err
 		}
+		amount = parsed
 	}
 
 	retryable, err := b.blnk.RunInflightActionByParent(ctx, p.TransactionID, action, amount, p.ActionID)
-- 
2.43.0


From e7a7b5f6f8a53102a91d45a3dcbb5e893bb8c1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:49 +0000
Subject: [PATCH 15/38] fix: an overdraft limit beyond 64 bits in minor units
 keeps its size

---
 model/model.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index 1cb52a2..858c19c 100644
--- a/model/model.go
+++ b/model/model.go
@@ -186,9 +186,8 @@ func canProcessTransaction(transaction *Transaction, sourceBalance *Balance) err
 		// decimal arithmetic: int64(limit*precision) truncates binary-float
 		// products (0.29*100 -> 28), rejecting transactions exactly at the
 		// configured limit.
-		overdraftLimitPrecise := decimal.NewFromFloat(transaction.OverdraftLimit).
-			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0).IntPart()
-		overdraftLimitBigInt := new(big.Int).SetInt64(overdraftLimitPrecise)
+		overdraftLimitBigInt := decimal.NewFromFloat(transaction.OverdraftLimit).
+			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0).BigInt()
 
 		// Negative of overdraft limit (as balance will be negative)
 		negativeOverdraftLimit := new(big.Int).Neg(overdraftLimitBigInt)
-- 
2.43.0


From 5b4860e9df888c866584c8082b1cd2b6264480b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 16/38] fix: TokenizeAllPII reports fields it failed to
 tokenize

---
 identity.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/identity.go b/identity.go
index 0949d86..e799f80 100644
--- a/identity.go
+++ b/identity.go
@@ -19,6 +19,7 @@ package blnk
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"reflect"
 	"strings"
@@ -29,6 +30,9 @@ import (
 	"github.com/blnkfinance/blnk/model"
 )
 
+// errFieldAlreadyTokenized reports that a field holds a token already.
+var errFieldAlreadyTokenized = errors.New("is already tokenized")
+
 // postIdentityActions performs actions after an identity has been created.
 // It sends the newly created identity to the search index queue and sends a webhook notification.
 func (l *Blnk) postIdentityActions(_ context.Context, identity *model.Identity) {
@@ -173,7 +177,7 @@ func (l *Blnk) TokenizeIdentityField(identityID, fieldName string) error {
 	// Check if field is already tokenized using the original field name
 	// as IsFieldTokenized will handle the conversion internally
 	if identity.IsFieldTokenized(fieldName) {
-		return fmt.Errorf("field %s is already tokenized", fieldName)
+		return fmt.Errorf("field %s %w", fieldName, errFieldAlreadyTokenized)
 	}
 
 	// Get the field value using reflection with struct field name
@@ -329,8 +333,10 @@ func (l *Blnk) DetokenizeIdentity(identityID string) (map[string]string, error)
 // - error: An error if any field could not be tokenized.
 func (l *Blnk) TokenizeAllPII(identityID string) error {
 	for _, field := range tokenization.TokenizableFields {
-		// Ignore errors for fields that might already be tokenized
-		_ = l.TokenizeIdentityField(identityID, field)
+		// Fields that are already tokenized are left as they are
+		if err := l.TokenizeIdentityField(identityID, field); err != nil && !errors.Is(err, errFieldAlreadyTokenized) {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From e9f4376149c5b819df223f2e0174a302d8685caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:39 +0000
Subject: [PATCH 17/38] fix: chain verification reports rows missing from the
 end of the chain

VerifyChain compared the replayed head only when the replay reached exactly the
recorded length, so a chain whose last sealed rows had disappeared verified.
---
 chain_worker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chain_worker.go b/chain_worker.go
index 7c121cc..7f8975a 100644
--- a/chain_worker.go
+++ b/chain_worker.go
@@ -209,6 +209,13 @@ func (l *Blnk) VerifyChain(ctx context.Context, progress func(seq int64)) (Chain
 		}
 	}
 
+	// Rows sealed up to the recorded length must all still be there; a sealer running
+	// alongside can only have made the chain longer than the state read above.
+	if lastSeq < state.LastSeq {
+		return ChainVerifyResult{BrokenSeq: lastSeq + 1,
+			Reason: fmt.Sprintf("chain ends at seq %d but chain_state records %d", lastSeq, state.LastSeq)}, nil
+	}
+
 	// The replayed head must match the recorded head at the recorded length.
 	if lastSeq == state.LastSeq && head != state.HeadHash {
 		return ChainVerifyResult{BrokenSeq: lastSeq, Reason: "replayed head does not match chain_state head_hash"}, nil
-- 
2.43.0


From 0e7fbc2767bc39dc1fec9c09b16070df0f05c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 18/38] fix: key cached external transaction pages by their
 upload

Pages of different uploads shared one cache entry, so a reconciliation
could read the external transactions of another upload.
---
 database/reconciliation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/reconciliation.go b/database/reconciliation.go
index 4d45b3f..d2cb12c 100644
--- a/database/reconciliation.go
+++ b/database/reconciliation.go
@@ -613,8 +613,8 @@ func (d Datasource) GetExternalTransactionsPaginated(ctx context.Context, upload
 	ctx, span := otel.Tracer("reconciliation.database").Start(ctx, "Fetching external transactions with pagination")
 	defer span.End()
 
-	// Create a cache key based on the pagination parameters
-	cacheKey := fmt.Sprintf("transactions:external:paginated:%d:%d", batchSize, offset)
+	// Create a cache key based on the upload and the pagination parameters
+	cacheKey := fmt.Sprintf("transactions:external:paginated:%s:%d:%d", uploadID, batchSize, offset)
 	var transactions []*model.ExternalTransaction
 
 	// Check if the data exists in the cache
-- 
2.43.0


From c2ace906504c4cbd25cb0a7145a3c8442a02e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 19/38] fix: detach the last-used update of an API key from its
 request

The goroutine read the gin context, which is recycled when the request
ends, and used the request context, which is cancelled by then, so the
update could be lost or see another request.
---
 api/middleware/auth.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/api/middleware/auth.go b/api/middleware/auth.go
index 9625258..39a6c37 100644
--- a/api/middleware/auth.go
+++ b/api/middleware/auth.go
@@ -18,6 +18,7 @@ package middleware
 
 import (
 	"bytes"
+	"context"
 	"crypto/subtle"
 	"encoding/json"
 	"io"
@@ -273,9 +274,12 @@ func (m *AuthMiddleware) Authenticate() gin.HandlerFunc {
 			}
 		}
 
-		// Update last used timestamp in background
+		// Update last used timestamp in background. The gin context is recycled and
+		// the request context cancelled once the response is sent, so neither may be
+		// used by the goroutine.
+		lastUsedCtx := context.WithoutCancel(c.Request.Context())
 		go func() {
-			_ = m.service.UpdateLastUsed(c.Request.Context(), apiKey.APIKeyID)
+			_ = m.service.UpdateLastUsed(lastUsedCtx, apiKey.APIKeyID)
 		}()
 
 		c.Set("apiKey", apiKey)
-- 
2.43.0


From a25f3d19a1569dd3225ee7fe2dbe15fb3bbe434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 20/38] fix: keep the error behind a failure out of the details
 of API responses

---
 api/errors.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/api/errors.go b/api/errors.go
index 8e21cbb..969c289 100644
--- a/api/errors.go
+++ b/api/errors.go
@@ -153,10 +153,20 @@ func writeError(c *gin.Context, code apierror.ErrorCode, message string, details
 	}
 	c.JSON(apierror.StatusForCode(code), gin.H{
 		o.legacyKey:    legacyValue,
-		errorDetailKey: apierror.APIError{Code: code, Message: message, Details: details},
+		errorDetailKey: apierror.APIError{Code: code, Message: message, Details: clientDetails(details)},
 	})
 }
 
+// clientDetails drops details that are the error behind the failure: driver
+// errors serialize their fields (table, query position, address), which are
+// logged when the APIError is created but are not for clients.
+func clientDetails(details interface{}) interface{} {
+	if _, ok := details.(error); ok {
+		return nil
+	}
+	return details
+}
+
 // classifySentinel maps known typed sentinel errors to catalog codes.
 func classifySentinel(err error) (apierror.ErrorCode, bool) {
 	switch {
@@ -255,6 +265,7 @@ func classifyMessage(msg string) (apierror.ErrorCode, bool) {
 // a top-level {code, message, details} object — while adding error_detail.
 func respondBareAPIError(c *gin.Context, legacy apierror.APIError, code apierror.ErrorCode) {
 	code = apierror.Normalize(code)
+	legacy.Details = clientDetails(legacy.Details)
 	c.JSON(apierror.StatusForCode(code), gin.H{
 		"code":         legacy.Code,
 		"message":      legacy.Message,
@@ -267,6 +278,7 @@ func respondBareAPIError(c *gin.Context, legacy apierror.APIError, code apierror
 // the APIError object under "error" — while adding error_detail.
 func respondNestedAPIError(c *gin.Context, legacy apierror.APIError, code apierror.ErrorCode) {
 	code = apierror.Normalize(code)
+	legacy.Details = clientDetails(legacy.Details)
 	c.JSON(apierror.StatusForCode(code), gin.H{
 		"error":        legacy,
 		errorDetailKey: apierror.APIError{Code: code, Message: legacy.Message, Details: legacy.Details},
-- 
2.43.0


From c90184d661c4c63d7a6974ffa0f665e188841d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 21/38] fix: keep the driver error out of the message when
 listing ledgers fails

---
 database/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/ledger.go b/database/ledger.go
index 63ddcdf..24eb74a 100644
--- a/database/ledger.go
+++ b/database/ledger.go
@@ -96,7 +96,7 @@ func (d Datasource) GetAllLedgers(limit, offset int) ([]model.Ledger, error) {
 
 	rows, err := d.Conn.QueryContext(context.Background(), query, limit, offset)
 	if err != nil {
-		return nil, apierror.NewAPIError(apierror.ErrInternalServer, err.Error(), err)
+		return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to retrieve ledgers", err)
 	}
 	defer func() { _ = rows.Close() }()
 
-- 
2.43.0


From ef3209b44b5523d5a90f48b90b6d4f05fa31355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 22/38] fix: report a failed fetch even when the workers have
 already finished

---
 transaction_batch_processing.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transaction_batch_processing.go b/transaction_batch_processing.go
index 3456a5c..40c4a2c 100644
--- a/transaction_batch_processing.go
+++ b/transaction_batch_processing.go
@@ -101,6 +101,14 @@ func (l *Blnk) ProcessTransactionInBatches(ctx context.Context, parentTransactio
 			span.RecordError(err)
 			return allTxns, err
 		case <-done:
+			// Processing also ends when fetching failed part-way: a failed
+			// fetch closes the jobs channel after reporting its error.
+			select {
+			case err := <-errChan:
+				span.RecordError(err)
+				return allTxns, err
+			default:
+			}
 		}
 
 		if len(allErrors) > 0 {
-- 
2.43.0


From 52327962a92b1b05da0aa745c9b61c7dcacfc54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 23/38] fix: report a transaction that could not be prepared
 for the queue

---
 transaction_queue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transaction_queue.go b/transaction_queue.go
index e037dd2..5cb3811 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -152,6 +152,8 @@ func processTransactionAsync(ctx context.Context, l *Blnk, transaction *model.Tr
 		queueTransactions, err := l.processTxns(ctx, asyncTxn, transactions, originalTxnID, originalRef)
 		if err != nil {
 			span.RecordError(err)
+			notification.NotifyError(err)
+			logrus.WithError(err).Error("failed to prepare transaction for the queue")
 		}
 
 		if !asyncTxn.SkipQueue {
-- 
2.43.0


From acf1d9320f5b73b4a694352a9a2a11182e23dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 24/38] fix: do not queue the undivided transaction when
 preparing its legs failed

---
 transaction_queue.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transaction_queue.go b/transaction_queue.go
index 5cb3811..d2b610c 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -154,6 +154,11 @@ func processTransactionAsync(ctx context.Context, l *Blnk, transaction *model.Tr
 			span.RecordError(err)
 			notification.NotifyError(err)
 			logrus.WithError(err).Error("failed to prepare transaction for the queue")
+			if len(transactions) > 0 {
+				// The undivided transaction is not what was asked for; legs already
+				// persisted are picked up by recovery.
+				return
+			}
 		}
 
 		if !asyncTxn.SkipQueue {
-- 
2.43.0


From eec5b7b1e3ccd3a44822ce7bf65f3e81a9ce9ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 25/38] fix: page grouped external transactions in an order
 without ties

---
 database/reconciliation.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/database/reconciliation.go b/database/reconciliation.go
index d2cb12c..e2f9224 100644
--- a/database/reconciliation.go
+++ b/database/reconciliation.go
@@ -814,7 +814,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT amount::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND amount::text IS NOT NULL AND amount::text != ''
-        ORDER BY amount::text
+        ORDER BY amount::text, id
         LIMIT $2 OFFSET $3
     `, true
 	case "reference":
@@ -822,7 +822,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT reference::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND reference::text IS NOT NULL AND reference::text != ''
-        ORDER BY reference::text
+        ORDER BY reference::text, id
         LIMIT $2 OFFSET $3
     `, true
 	case "currency":
@@ -830,7 +830,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT currency::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND currency::text IS NOT NULL AND currency::text != ''
-        ORDER BY currency::text
+        ORDER BY currency::text, id
         LIMIT $2 OFFSET $3
     `, true
 	case "description":
@@ -838,7 +838,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT description::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND description::text IS NOT NULL AND description::text != ''
-        ORDER BY description::text
+        ORDER BY description::text, id
         LIMIT $2 OFFSET $3
     `, true
 	case "date":
@@ -846,7 +846,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT date::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND date::text IS NOT NULL AND date::text != ''
-        ORDER BY date::text
+        ORDER BY date::text, id
         LIMIT $2 OFFSET $3
     `, true
 	case "source":
@@ -854,7 +854,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT source::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND source::text IS NOT NULL AND source::text != ''
-        ORDER BY source::text
+        ORDER BY source::text, id
         LIMIT $2 OFFSET $3
     `, true
 	default:
-- 
2.43.0


From 0ab9ec74622c2e5713219a175a295683994c9a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 26/38] fix: detokenize an identity whose marks come from the
 database

GetDetokenizedIdentity only understood tokenized_fields as map[string]bool,
but the metadata comes back from the database as map[string]interface{}, so
it returned the tokens as they are.
---
 identity.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/identity.go b/identity.go
index e799f80..8cc1371 100644
--- a/identity.go
+++ b/identity.go
@@ -362,22 +362,16 @@ func (l *Blnk) GetDetokenizedIdentity(identityID string) (*model.Identity, error
 
 	// Detokenize all tokenized fields
 	if identity.MetaData != nil {
-		tokenizedFields, ok := identity.MetaData["tokenized_fields"].(map[string]bool)
-		if ok {
-			for field, isTokenized := range tokenizedFields {
-				if isTokenized {
-					originalValue, err := l.DetokenizeIdentityField(identityID, field)
-					if err != nil {
-						return nil, err
-					}
-
-					// Set the original value in the copy
-					val := reflect.ValueOf(&detokenizedIdentity).Elem()
-					fieldVal := val.FieldByName(field)
-					if fieldVal.IsValid() && fieldVal.CanSet() {
-						fieldVal.SetString(originalValue)
-					}
-				}
+		originalValues, err := l.DetokenizeIdentity(identityID)
+		if err != nil {
+			return nil, err
+		}
+		for field, originalValue := range originalValues {
+			// Set the original value in the copy
+			val := reflect.ValueOf(&detokenizedIdentity).Elem()
+			fieldVal := val.FieldByName(field)
+			if fieldVal.IsValid() && fieldVal.CanSet() {
+				fieldVal.SetString(originalValue)
 			}
 		}
 	}
-- 
2.43.0


From 710b458e62e9830e3dcb9f09d82b201c465eff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 27/38] fix: count a hook as delivered only on a success status

A redirect or error answer whose body was {"success": true}, or a 3xx answer
with any other body, was taken for a delivery and never retried.
---
 internal/hooks/client.go | 55 ++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/internal/hooks/client.go b/internal/hooks/client.go
index 4e9e586..13b2a0b 100644
--- a/internal/hooks/client.go
+++ b/internal/hooks/client.go
@@ -130,48 +130,35 @@ func (m *redisHookManager) executeHook(ctx context.Context, hook *Hook, payload
 		"response":    string(body),
 	}).Debug("Hook response received")
 
+	// Only a success status counts as delivered, whatever the body says
+	if resp.StatusCode < 200 || resp.StatusCode >= 300 {
+		_ = m.updateHookStatus(ctx, hook, false)
+		return fmt.Errorf("hook returned status %d: %s", resp.StatusCode, string(body))
+	}
+
 	// Handle empty response
 	if len(body) == 0 {
-		if resp.StatusCode >= 200 && resp.StatusCode < 300 {
-			logrus.WithFields(logrus.Fields{
-				"hook_id":     hook.ID,
-				"hook_name":   hook.Name,
-				"hook_url":    hook.URL,
-				"hook_type":   hook.Type,
-				"status_code": resp.StatusCode,
-			}).Info("Hook executed successfully with empty response")
-			_ = m.updateHookStatus(ctx, hook, true)
-			return nil
-		}
-		_ = m.updateHookStatus(ctx, hook, false)
-		return fmt.Errorf("hook returned empty response with status %d", resp.StatusCode)
+		logrus.WithFields(logrus.Fields{
+			"hook_id":     hook.ID,
+			"hook_name":   hook.Name,
+			"hook_url":    hook.URL,
+			"hook_type":   hook.Type,
+			"status_code": resp.StatusCode,
+		}).Info("Hook executed successfully with empty response")
+		_ = m.updateHookStatus(ctx, hook, true)
+		return nil
 	}
 
 	// Check if response is JSON
 	if !json.Valid(body) {
-		if resp.StatusCode >= 200 && resp.StatusCode < 300 {
-			logrus.WithFields(logrus.Fields{
-				"hook_id":     hook.ID,
-				"hook_name":   hook.Name,
-				"hook_url":    hook.URL,
-				"hook_type":   hook.Type,
-				"status_code": resp.StatusCode,
-				"response":    string(body),
-			}).Info("Hook executed successfully with non-JSON response")
-			_ = m.updateHookStatus(ctx, hook, true)
-			return nil
-		}
-		if resp.StatusCode >= 400 {
-			_ = m.updateHookStatus(ctx, hook, false)
-			return fmt.Errorf("hook returned non-JSON error response (status %d): %s", resp.StatusCode, string(body))
-		}
-		// For non-error status codes, treat non-JSON response as success but log a warning
 		logrus.WithFields(logrus.Fields{
 			"hook_id":     hook.ID,
+			"hook_name":   hook.Name,
+			"hook_url":    hook.URL,
 			"hook_type":   hook.Type,
 			"status_code": resp.StatusCode,
 			"response":    string(body),
-		}).Warn("Hook returned non-JSON response")
+		}).Info("Hook executed successfully with non-JSON response")
 		_ = m.updateHookStatus(ctx, hook, true)
 		return nil
 	}
@@ -179,11 +166,7 @@ func (m *redisHookManager) executeHook(ctx context.Context, hook *Hook, payload
 	// For JSON responses, try to parse as HookResponse
 	var hookResp HookResponse
 	if err := json.Unmarshal(body, &hookResp); err != nil {
-		if resp.StatusCode >= 400 {
-			_ = m.updateHookStatus(ctx, hook, false)
-			return fmt.Errorf("invalid JSON error response: %w", err)
-		}
-		// For non-error status codes, treat invalid JSON as success but log warning
+		// Treat invalid JSON as success but log warning
 		logrus.WithFields(logrus.Fields{
 			"hook_id": hook.ID,
 			"error":   err,
-- 
2.43.0


From ddea69ca1da34e6f8c3b4ecfff587f7e82db2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 28/38] fix: redact exported structs and URLs of every scheme

---
 internal/monitoringexporter/redact.go | 31 ++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/internal/monitoringexporter/redact.go b/internal/monitoringexporter/redact.go
index b6fbbf0..35a8391 100644
--- a/internal/monitoringexporter/redact.go
+++ b/internal/monitoringexporter/redact.go
@@ -1,6 +1,7 @@
 package monitoringexporter
 
 import (
+	"encoding/json"
 	"fmt"
 	"net/url"
 	"reflect"
@@ -30,7 +31,7 @@ var sensitiveKeyParts = []string{
 }
 
 var (
-	absoluteURLPattern = regexp.MustCompile(`https?://[^\s"'<>]+`)
+	absoluteURLPattern = regexp.MustCompile(`[a-zA-Z][a-zA-Z0-9+.-]*://[^\s"'<>]+`)
 	queryValuePattern  = regexp.MustCompile(`([?&][^=\s&]+)=([^&\s]+)`)
 	bearerPattern      = regexp.MustCompile(`(?i)\bBearer\s+[A-Za-z0-9._~+/=-]+`)
 )
@@ -143,7 +144,7 @@ func redactReflectValue(value interface{}) interface{} {
 	switch rv.Kind() {
 	case reflect.Map:
 		if rv.Type().Key().Kind() != reflect.String {
-			return value
+			return redactEncodedValue(value)
 		}
 		out := make(map[string]interface{}, rv.Len())
 		for _, key := range rv.MapKeys() {
@@ -156,12 +157,36 @@ func redactReflectValue(value interface{}) interface{} {
 		}
 		return out
 	case reflect.Slice, reflect.Array:
+		if rv.Kind() == reflect.Slice && rv.Type().Elem().Kind() == reflect.Uint8 {
+			return RedactString(string(rv.Bytes()))
+		}
 		out := make([]interface{}, rv.Len())
 		for i := 0; i < rv.Len(); i++ {
 			out[i] = RedactValue(rv.Index(i).Interface())
 		}
 		return out
-	default:
+	case reflect.String:
+		return RedactString(rv.String())
+	case reflect.Bool,
+		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
+		reflect.Float32, reflect.Float64:
 		return value
+	default:
+		return redactEncodedValue(value)
+	}
+}
+
+// redactEncodedValue redacts values such as structs and pointers in the form
+// they would have in the exported JSON document.
+func redactEncodedValue(value interface{}) interface{} {
+	encoded, err := json.Marshal(value)
+	if err != nil {
+		return redacted
+	}
+	var decoded interface{}
+	if err := json.Unmarshal(encoded, &decoded); err != nil {
+		return redacted
 	}
+	return RedactValue(decoded)
 }
-- 
2.43.0


From 1ff04be0a09728271c874e245108c356ef2cc160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 29/38] fix: stop background loops by the channel they were
 started with

---
 chain_worker.go   | 9 +++++----
 lineage_worker.go | 9 +++++----
 queue_recovery.go | 9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/chain_worker.go b/chain_worker.go
index 7f8975a..d3ccf1a 100644
--- a/chain_worker.go
+++ b/chain_worker.go
@@ -78,13 +78,14 @@ func (p *ChainProcessor) Start(ctx context.Context) {
 		return
 	}
 	p.running = true
-	p.stopCh = make(chan struct{})
+	stopCh := make(chan struct{})
+	p.stopCh = stopCh
 	p.mu.Unlock()
 
 	p.wg.Add(1)
 	go func() {
 		defer p.wg.Done()
-		p.run(ctx)
+		p.run(ctx, stopCh)
 	}()
 	logrus.Info("Hash-chain processor started")
 }
@@ -111,7 +112,7 @@ func (p *ChainProcessor) IsRunning() bool {
 	return p.running
 }
 
-func (p *ChainProcessor) run(ctx context.Context) {
+func (p *ChainProcessor) run(ctx context.Context, stopCh <-chan struct{}) {
 	ticker := time.NewTicker(p.pollInterval)
 	defer ticker.Stop()
 
@@ -119,7 +120,7 @@ func (p *ChainProcessor) run(ctx context.Context) {
 		select {
 		case <-ctx.Done():
 			return
-		case <-p.stopCh:
+		case <-stopCh:
 			return
 		case <-ticker.C:
 			p.processTick(ctx)
diff --git a/lineage_worker.go b/lineage_worker.go
index 052cbe8..fe2910c 100644
--- a/lineage_worker.go
+++ b/lineage_worker.go
@@ -104,13 +104,14 @@ func (p *LineageOutboxProcessor) Start(ctx context.Context) {
 		return
 	}
 	p.running = true
-	p.stopCh = make(chan struct{})
+	stopCh := make(chan struct{})
+	p.stopCh = stopCh
 	p.mu.Unlock()
 
 	p.wg.Add(1)
 	go func() {
 		defer p.wg.Done()
-		p.run(ctx)
+		p.run(ctx, stopCh)
 	}()
 }
 
@@ -141,7 +142,7 @@ func (p *LineageOutboxProcessor) IsRunning() bool {
 }
 
 // run is the main processing loop.
-func (p *LineageOutboxProcessor) run(ctx context.Context) {
+func (p *LineageOutboxProcessor) run(ctx context.Context, stopCh <-chan struct{}) {
 	ticker := time.NewTicker(p.pollInterval)
 	defer ticker.Stop()
 
@@ -150,7 +151,7 @@ func (p *LineageOutboxProcessor) run(ctx context.Context) {
 		case <-ctx.Done():
 			logrus.Info("Lineage outbox processor context cancelled")
 			return
-		case <-p.stopCh:
+		case <-stopCh:
 			logrus.Info("Lineage outbox processor stop signal received")
 			return
 		case <-ticker.C:
diff --git a/queue_recovery.go b/queue_recovery.go
index 1661425..083bb59 100644
--- a/queue_recovery.go
+++ b/queue_recovery.go
@@ -63,13 +63,14 @@ func (p *QueuedTransactionRecoveryProcessor) Start(ctx context.Context) {
 		return
 	}
 	p.running = true
-	p.stopCh = make(chan struct{})
+	stopCh := make(chan struct{})
+	p.stopCh = stopCh
 	p.mu.Unlock()
 
 	p.wg.Add(1)
 	go func() {
 		defer p.wg.Done()
-		p.run(ctx)
+		p.run(ctx, stopCh)
 	}()
 
 	logrus.Info("Queued transaction recovery processor started")
@@ -98,7 +99,7 @@ func (p *QueuedTransactionRecoveryProcessor) IsRunning() bool {
 }
 
 // run executes the poll loop that periodically scans for stuck queued transactions.
-func (p *QueuedTransactionRecoveryProcessor) run(ctx context.Context) {
+func (p *QueuedTransactionRecoveryProcessor) run(ctx context.Context, stopCh <-chan struct{}) {
 	ticker := time.NewTicker(p.pollInterval)
 	defer ticker.Stop()
 
@@ -107,7 +108,7 @@ func (p *QueuedTransactionRecoveryProcessor) run(ctx context.Context) {
 		case <-ctx.Done():
 			logrus.Info("Queued transaction recovery processor context cancelled")
 			return
-		case <-p.stopCh:
+		case <-stopCh:
 			logrus.Info("Queued transaction recovery processor stop signal received")
 			return
 		case <-ticker.C:
-- 
2.43.0


From 5b4b9b156ad04e90f18cc70ac2f113bf1b424d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 30/38] fix: set the reindex phase under the progress lock

---
 internal/search/reindex.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/search/reindex.go b/internal/search/reindex.go
index 22d8645..342b765 100644
--- a/internal/search/reindex.go
+++ b/internal/search/reindex.go
@@ -107,6 +107,12 @@ func (r *ReindexService) updateProgress(phase string, processed int64, total int
 	r.progress.TotalRecords = total
 }
 
+func (r *ReindexService) setPhase(phase string) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.progress.Phase = phase
+}
+
 func (r *ReindexService) addError(err string) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
@@ -337,7 +343,7 @@ func (r *ReindexService) indexLedgers(ctx context.Context) error {
 }
 
 func (r *ReindexService) indexIdentities(ctx context.Context) error {
-	r.updateProgress("indexing_identities", r.progress.ProcessedRecords, r.progress.TotalRecords)
+	r.setPhase("indexing_identities")
 	logrus.Info("Starting to index identities")
 
 	var offset int
@@ -393,7 +399,7 @@ func (r *ReindexService) indexIdentities(ctx context.Context) error {
 }
 
 func (r *ReindexService) indexBalances(ctx context.Context) error {
-	r.updateProgress("indexing_balances", r.progress.ProcessedRecords, r.progress.TotalRecords)
+	r.setPhase("indexing_balances")
 	logrus.Info("Starting to index balances")
 
 	var offset int
@@ -449,7 +455,7 @@ func (r *ReindexService) indexBalances(ctx context.Context) error {
 }
 
 func (r *ReindexService) indexTransactions(ctx context.Context) error {
-	r.updateProgress("indexing_transactions", r.progress.ProcessedRecords, r.progress.TotalRecords)
+	r.setPhase("indexing_transactions")
 	logrus.Info("Starting to index transactions")
 
 	var offset int
-- 
2.43.0


From c4eeb1fa123f7ec8bea7acd7ada27dc0b048217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 31/38] fix: count and flag matches atomically across
 reconciliation workers

---
 reconciliation.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/reconciliation.go b/reconciliation.go
index 7fb337f..2a4a612 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -25,6 +25,7 @@ import (
 	"math/big"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/blnkfinance/blnk/config"
@@ -546,7 +547,7 @@ func (s *Blnk) processTransactions(ctx context.Context, uploadID string, process
 	if err != nil {
 		return err
 	}
-	processedCount := 0
+	var processedCount atomic.Int64 // the workers run concurrently
 	var transactionProcessor getTxns
 	// Use different transaction retrieval methods depending on the strategy.
 	if strategy == "many_to_one" {
@@ -571,15 +572,14 @@ func (s *Blnk) processTransactions(ctx context.Context, uploadID string, process
 					results <- BatchJobResult{Error: err}
 					return
 				}
-				processedCount++
-				if processedCount%10 == 0 {
-					logrus.Infof("Processed %d transactions", processedCount)
+				if count := processedCount.Add(1); count%10 == 0 {
+					logrus.Infof("Processed %d transactions", count)
 				}
 				results <- BatchJobResult{}
 			}
 		},
 	)
-	logrus.Infof("Total transactions processed: %d", processedCount)
+	logrus.Infof("Total transactions processed: %d", processedCount.Load())
 	return err
 }
 
@@ -1019,7 +1019,7 @@ func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn
 		return err
 	}
 
-	matchFound := false
+	var matchFound atomic.Bool // set by workers that run concurrently
 
 	minAmount, maxAmount, minDate, maxDate, currency := s.calculateMatchingBounds(externalTxn, matchingRules)
 
@@ -1047,7 +1047,7 @@ func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn
 							Amount:                externalTxn.Amount,
 							Date:                  externalTxn.CreatedAt,
 						}
-						matchFound = true
+						matchFound.Store(true)
 						return
 					}
 				}
@@ -1058,7 +1058,7 @@ func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn
 		return err
 	}
 
-	if !matchFound {
+	if !matchFound.Load() {
 		select {
 		case unMatchChan <- externalTxn.TransactionID:
 		default:
-- 
2.43.0


From f2580a349b5cf72b37b5287d7b1e19e04a39131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 32/38] fix: read collected results under their lock after a
 failed fetch

---
 transaction_batch_processing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transaction_batch_processing.go b/transaction_batch_processing.go
index 40c4a2c..4e9907f 100644
--- a/transaction_batch_processing.go
+++ b/transaction_batch_processing.go
@@ -99,6 +99,9 @@ func (l *Blnk) ProcessTransactionInBatches(ctx context.Context, parentTransactio
 		select {
 		case err := <-errChan:
 			span.RecordError(err)
+			// Results may still be coming in.
+			mu.Lock()
+			defer mu.Unlock()
 			return allTxns, err
 		case <-done:
 			// Processing also ends when fetching failed part-way: a failed
-- 
2.43.0


From 204291432224941464acd0c4ebcdbc40c74eeb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 33/38] fix: give async transaction work deep copies, split
 legs included

---
 transaction_queue.go | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/transaction_queue.go b/transaction_queue.go
index d2b610c..c55a43d 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -139,6 +139,7 @@ func processTransactionAsync(ctx context.Context, l *Blnk, transaction *model.Tr
 	// QueueTransaction. Snapshot it so the worker never races a caller that
 	// inspects the returned transaction.
 	asyncTxn := cloneTransactionForAsync(transaction)
+	asyncLegs := cloneTransactionsForAsync(transactions)
 	go func() {
 		if err := asyncTxnSemaphore.Acquire(ctx, 1); err != nil {
 			logrus.WithError(err).Error("failed to acquire async txn semaphore")
@@ -149,12 +150,12 @@ func processTransactionAsync(ctx context.Context, l *Blnk, transaction *model.Tr
 		ctx, span := tracer.Start(ctx, "ProcessTransactionAsync")
 		defer span.End()
 
-		queueTransactions, err := l.processTxns(ctx, asyncTxn, transactions, originalTxnID, originalRef)
+		queueTransactions, err := l.processTxns(ctx, asyncTxn, asyncLegs, originalTxnID, originalRef)
 		if err != nil {
 			span.RecordError(err)
 			notification.NotifyError(err)
 			logrus.WithError(err).Error("failed to prepare transaction for the queue")
-			if len(transactions) > 0 {
+			if len(asyncLegs) > 0 {
 				// The undivided transaction is not what was asked for; legs already
 				// persisted are picked up by recovery.
 				return
@@ -170,22 +171,10 @@ func processTransactionAsync(ctx context.Context, l *Blnk, transaction *model.Tr
 }
 
 // cloneTransactionForAsync returns a copy of the transaction safe to hand to the
-// async worker: the MetaData map and EffectiveDate pointer are duplicated so the
-// worker's mutations never touch the object the caller still holds.
+// async worker: everything it points to is duplicated so the worker's mutations
+// never touch the object the caller still holds.
 func cloneTransactionForAsync(t *model.Transaction) *model.Transaction {
-	clone := *t
-	if t.MetaData != nil {
-		md := make(map[string]interface{}, len(t.MetaData))
-		for k, v := range t.MetaData {
-			md[k] = v
-		}
-		clone.MetaData = md
-	}
-	if t.EffectiveDate != nil {
-		ed := *t.EffectiveDate
-		clone.EffectiveDate = &ed
-	}
-	return &clone
+	return t.Clone()
 }
 
 // cloneTransactionsForAsync clones each transaction so a background worker can
-- 
2.43.0


From c99df29061a7a3787f71fcd90e1dc87054c9f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:31 +0000
Subject: [PATCH 34/38] fix: collect CSV import errors while rows are processed

---
 internal/files/files.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/internal/files/files.go b/internal/files/files.go
index d25394c..4b0ac8d 100644
--- a/internal/files/files.go
+++ b/internal/files/files.go
@@ -22,6 +22,7 @@ import (
 	"context"
 	"encoding/csv"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"mime"
@@ -273,8 +274,21 @@ func processCSVRowsParallel(ctx context.Context, uploadID, source string, csvRea
 		}()
 	}
 
+	// Collect errors while the rows are processed, however many there are, so
+	// that no worker is left blocked on a full error channel.
+	var errs []error
+	collected := make(chan struct{})
+	go func() {
+		defer close(collected)
+		for err := range errChan {
+			errs = append(errs, err)
+		}
+	}()
+
 	// Read CSV rows and send to workers
+	wg.Add(1)
 	go func() {
+		defer wg.Done()
 		rowNum := 1
 		for {
 			record, err := csvReader.Read()
@@ -283,6 +297,11 @@ func processCSVRowsParallel(ctx context.Context, uploadID, source string, csvRea
 			}
 			if err != nil {
 				errChan <- fmt.Errorf("error reading row %d: %w", rowNum, err)
+				var parseErr *csv.ParseError
+				if !errors.As(err, &parseErr) {
+					// The input itself cannot be read any further.
+					break
+				}
 				continue
 			}
 
@@ -302,15 +321,10 @@ func processCSVRowsParallel(ctx context.Context, uploadID, source string, csvRea
 		close(rowChan)
 	}()
 
-	// Wait for workers to finish
+	// Wait for the reader and the workers to finish
 	wg.Wait()
 	close(errChan)
-
-	// Collect errors
-	var errs []error
-	for err := range errChan {
-		errs = append(errs, err)
-	}
+	<-collected
 
 	if len(errs) > 0 {
 		return int(totalCount), fmt.Errorf("encountered %d errors while processing CSV: %v", len(errs), errs)
-- 
2.43.0


From fbc20646ecbc934a43b994039c638e90c61f8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:38 +0000
Subject: [PATCH 35/38] fix: report cancelled CSV imports as failed

---
 internal/files/files.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/files/files.go b/internal/files/files.go
index 4b0ac8d..3d320b1 100644
--- a/internal/files/files.go
+++ b/internal/files/files.go
@@ -326,6 +326,11 @@ func processCSVRowsParallel(ctx context.Context, uploadID, source string, csvRea
 	close(errChan)
 	<-collected
 
+	// A cancelled upload leaves rows unread or unstored.
+	if err := ctx.Err(); err != nil {
+		errs = append(errs, err)
+	}
+
 	if len(errs) > 0 {
 		return int(totalCount), fmt.Errorf("encountered %d errors while processing CSV: %v", len(errs), errs)
 	}
-- 
2.43.0


From b16013369e6e8528fee569ec0ef94b96ae04f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:45 +0000
Subject: [PATCH 36/38] fix: refuse CSV rows whose amount or date does not
 parse

---
 internal/files/files.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/internal/files/files.go b/internal/files/files.go
index 3d320b1..3a02f27 100644
--- a/internal/files/files.go
+++ b/internal/files/files.go
@@ -438,7 +438,10 @@ func parseExternalTransaction(record []string, columnMap map[string]int, source
 		return model.ExternalTransaction{}, err
 	}
 
-	amount := parseFloat(amountStr)
+	amount, err := strconv.ParseFloat(amountStr, 64)
+	if err != nil {
+		return model.ExternalTransaction{}, fmt.Errorf("invalid amount '%s': %w", amountStr, err)
+	}
 
 	reference, err := getRequiredField(record, columnMap, "reference")
 	if err != nil {
@@ -454,7 +457,10 @@ func parseExternalTransaction(record []string, columnMap map[string]int, source
 	if err != nil {
 		return model.ExternalTransaction{}, err
 	}
-	date := parseTime(dateStr)
+	date, err := time.Parse(time.RFC3339, dateStr)
+	if err != nil {
+		return model.ExternalTransaction{}, fmt.Errorf("invalid date '%s': %w", dateStr, err)
+	}
 
 	return model.ExternalTransaction{
 		ID:          id,
@@ -519,19 +525,3 @@ func ProcessJSON(ctx context.Context, uploadID, source string, reader io.Reader,
 
 	return total, nil
 }
-
-func parseFloat(s string) float64 {
-	f, err := strconv.ParseFloat(s, 64)
-	if err != nil {
-		return 0
-	}
-	return f
-}
-
-func parseTime(s string) time.Time {
-	t, err := time.Parse(time.RFC3339, s)
-	if err != nil {
-		return time.Time{}
-	}
-	return t
-}
-- 
2.43.0


From 10c1846fc48e091019ec5693d6860a215d3670cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 37/38] fix: refuse JSON uploads that end early or go on after
 the list

---
 internal/files/files.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/files/files.go b/internal/files/files.go
index 3a02f27..bfe7de0 100644
--- a/internal/files/files.go
+++ b/internal/files/files.go
@@ -523,5 +523,14 @@ func ProcessJSON(ctx context.Context, uploadID, source string, reader io.Reader,
 		}
 	}
 
+	// More also stops at the end of a truncated input: the array must be closed,
+	// and nothing may follow it.
+	if _, err := decoder.Token(); err != nil {
+		return total, fmt.Errorf("error reading end of JSON array: %w", err)
+	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return total, fmt.Errorf("unexpected data after JSON array")
+	}
+
 	return total, nil
 }
-- 
2.43.0


From 4fdc69c96415c6052fd5e153a2390e2204568021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:55 +0000
Subject: [PATCH 38/38] fix: fail URL uploads beyond the size limit instead of
 cutting them off

---
 api/reconciliation_api.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/api/reconciliation_api.go b/api/reconciliation_api.go
index fdaa2d7..e9bb425 100644
--- a/api/reconciliation_api.go
+++ b/api/reconciliation_api.go
@@ -18,7 +18,6 @@ package api
 import (
 	"context"
 	"encoding/json"
-	"io"
 	"net/http"
 	"net/url"
 	"path"
@@ -120,7 +119,7 @@ func resolveUploadURL(c *gin.Context) (rawURL, source string) {
 // unchanged UploadExternalData service. It enforces SSRF protection
 // (http(s)-only, deny-by-default host whitelist, redirect re-validation), a
 // configurable GET timeout, and the existing MaxUploadSizeMB body cap via
-// io.LimitReader. On failure it writes the error response and returns ok=false.
+// http.MaxBytesReader. On failure it writes the error response and returns ok=false.
 func (a Api) downloadAndUpload(c *gin.Context, source, rawURL string) (uploadID string, total int, ok bool) {
 	cfg, _ := config.Fetch()
 
@@ -201,13 +200,13 @@ func (a Api) downloadAndUpload(c *gin.Context, source, rawURL string) (uploadID
 		return "", 0, false
 	}
 
-	// Cap the downloaded body at MaxUploadSizeMB. An oversize response is
-	// truncated, which surfaces downstream as a parse/processing failure (500).
+	// Cap the downloaded body at MaxUploadSizeMB. Reading an oversize response
+	// fails at the limit, so it is never processed as if it ended there (500).
 	limit := int64(config.DEFAULT_MAX_UPLOAD_SIZE_MB) * 1024 * 1024
 	if cfg != nil && cfg.Server.MaxUploadSizeMB > 0 {
 		limit = cfg.Server.MaxUploadSizeMB * 1024 * 1024
 	}
-	limited := io.LimitReader(resp.Body, limit+1)
+	limited := http.MaxBytesReader(nil, resp.Body, limit)
 
 	id, total, err := a.blnk.UploadExternalData(ctx, source, limited, name)
 	if err != nil {
-- 
2.43.0

